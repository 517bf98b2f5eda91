"""shared specification vocabulary"""
import numpy as np
from vc import terms as tm, snp, deps
from vc.terms import (T, L, num, sym, app, ite, and_, or_, not_, eq, le, lt, TRUE, FALSE, PI, implies)
from vc.contract import Check, Violation

EPS = 2 ** -52


def half():
    return num(tm.Fraction(1, 2))


def unit_rel(q):
    """q0^2 -> 1 - q1^2 - ..."""
    r = num(1, 'R')
    for x in q[1:]:
        r = r - x * x
    return [(q[0], r)]


def unit_hyp(q):
    return eq(sum_([x * x for x in q]), num(1))


def sum_(xs):
    r = L(xs[0])
    for x in xs[1:]:
        r = r + x
    return r


def dot(a, b):
    return sum_([L(x) * L(y) for x, y in zip(a, b)])


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def matmul(a, b):
    return [[sum_([a[i][k] * b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def rows(a):
    """concrete symbolic array -> nested lists"""
    a = snp.asarray(a)
    return a.a.tolist()


def eye(n=3):
    return [[num(1 if i == j else 0, 'R') for j in range(n)] for i in range(n)]


def rodrigues(n, a):
    """rotation matrix about unit axis n by angle a"""
    c, s = tm.cos(a), tm.sin(a)
    k = [[num(0, 'R'), -n[2], n[1]], [n[2], num(0, 'R'), -n[0]], [-n[1], n[0], num(0, 'R')]]
    return [[(c if i == j else num(0, 'R')) + (1 - c) * n[i] * n[j] + s * k[i][j] for j in range(3)] for i in range(3)]


def rx(a):
    c, s, o, z = tm.cos(a), tm.sin(a), num(1, 'R'), num(0, 'R')
    return [[o, z, z], [z, c, -s], [z, s, c]]


def ry(a):
    c, s, o, z = tm.cos(a), tm.sin(a), num(1, 'R'), num(0, 'R')
    return [[c, z, s], [z, o, z], [-s, z, c]]


def rz(a):
    c, s, o, z = tm.cos(a), tm.sin(a), num(1, 'R'), num(0, 'R')
    return [[c, -s, z], [s, c, z], [z, z, o]]


AX = {'x': rx, 'y': ry, 'z': rz}


# ---------------------------------------------------------------- numeric helpers
def nrot(v):
    """numeric rotation matrix of a rotation vector, independent implementation"""
    v = np.asarray(v, float)
    a = np.sqrt((v * v).sum())
    k = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    if a < 1e-8:
        return np.eye(3) + k + k @ k / 2
    return np.eye(3) + np.sin(a) / a * k + (1 - np.cos(a)) / a ** 2 * (k @ k)


def rand_unit(rng, *shape):
    v = rng.normal(size=shape)
    return v / np.sqrt((v * v).sum(0))


def rand_rot(rng, special=True):
    """rotation vectors including special cases"""
    k = rng.integers(0, 6) if special else 5
    ax = rand_unit(rng, 3)
    if k == 0:
        ax = np.eye(3)[rng.integers(0, 3)] * rng.choice([-1, 1])
    ang = rng.choice([0.0, np.pi / 2, np.pi / 3, 2 * np.pi / 3, 1e-9, np.pi - 1e-3]) if k == 1 else rng.uniform(0, np.pi * 0.999)
    return ax * ang


def nqmul(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return np.array([a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g,
                     a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e])


def nqmat(q):
    a, b, c, d = q
    return np.array([[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
                     [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
                     [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]])


def diff(t, x):
    """derivative of the term t with respect to the symbol x"""
    t = tm.toreal(L(t))
    memo = {}

    def d(t):
        if t in memo:
            return memo[t]
        if t is x:
            r = num(1, 'R')
        elif t.op in ('num', 'sym') or not tm.children(t):
            r = num(0, 'R')
        elif all(all(q is not x for q in tm.symbols([c])) for c in tm.children(t)):
            r = num(0, 'R')
        elif t.op == '+':
            r = d(t.args[0]) + d(t.args[1])
        elif t.op == '*':
            r = d(t.args[0]) * t.args[1] + t.args[0] * d(t.args[1])
        elif t.op == '/':
            a, b = t.args
            r = (d(a) * b - a * d(b)) / (b * b)
        elif t.op == 'powi':
            a, e = t.args
            r = tm.power(a, num(e - 1)) * e * d(a)
        elif t.op == 'exp':
            r = t * d(t.args[0])
        elif t.op == 'sin':
            r = tm.cos(t.args[0]) * d(t.args[0])
        elif t.op == 'cos':
            r = -tm.sin(t.args[0]) * d(t.args[0])
        elif t.op == 'ite':
            r = ite(t.args[0], d(t.args[1]), d(t.args[2]))
        else:
            raise ValueError('diff: ' + t.op)
        memo[t] = r
        return r
    return d(t)


# ---------------------------------------------------------------- the C kernels
XF = 'hexrd.core.transforms.xfcapi'


def cmod():
    """the C module transforms_c_api, executed from its current source"""
    import os
    import hexrd.core.transforms as p
    from vc import cfront
    return cfront.Module(os.path.join(list(p.__path__)[0], 'new_capi', 'module.c'))


CASSUME = ['C kernels: the clang syntax tree of the current source is executed symbolically (double = real, integers unbounded, NaN as a flag), compiled without assertions as the build does',
           'the CPython and numpy C interfaces used by the wrappers (argument parsing, allocation, data pointers, error reporting) are modelled by contracts in vc/cfront.py',
           'libm functions are the real functions']


def clift(v, *names):
    """functions of xfcapi that call the C module through its executed source"""
    m = cmod()
    v.kernel(m)
    return [v.lift(XF + ':' + n, overrides={(XF, 'transforms_c_api'): m}) for n in names]


def at2(a, k, c):
    return a.el((L(k), num(c, 'I')))
