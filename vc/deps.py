"""Assumed contracts of external dependencies (scipy.spatial.transform.Rotation)."""
import numpy as _np
from . import terms as tm, snp, explore
from .terms import T, L, num, ite, Unsupported

F = _np.dtype(float)


def qmul(p, q):
    """Hamilton product, scalar first"""
    a, b, c, d = p
    e, f, g, h = q
    return (a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g,
            a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e)


def qmat(q):
    a, b, c, d = q
    return [[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
            [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
            [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]]


def qrotvec(v):
    """unit quaternion of a rotation vector (scalar first)"""
    v = [L(x) for x in v]
    n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    a = tm.sqrt(n2)
    z = tm.eq(n2, num(0))
    h = tm.mul(num(tm.Fraction(1, 2)), a)
    k = ite(z, num(0, 'R'), tm.div(tm.sin(h), a))
    return (ite(z, num(1, 'R'), tm.cos(h)),) + tuple(tm.mul(k, x) for x in v)


class Rotation:
    """R = [q] a stack of unit quaternions; `one` marks a single rotation"""

    def __init__(self, n, q, one):
        self.n, self.q, self.one = n, q, one     # q: index -> (w, x, y, z)

    @staticmethod
    def _rows(x, k):
        x = snp.asarray(x)
        if x.ndim == 1:
            if x.shape[0] != k:
                raise ValueError('shape')
            s = x.snapshot()
            return 1, (lambda i: [s((j,)) for j in range(k)]), True
        if x.ndim == 2:
            if x.shape[1] != k:
                raise ValueError('shape')
            s = x.snapshot()
            return x.shape[0], (lambda i: [s((i, j)) for j in range(k)]), False
        raise ValueError('shape')

    @classmethod
    def from_rotvec(cls, v, degrees=False):
        n, r, one = cls._rows(v, 3)
        return cls(n, lambda i: qrotvec(r(i)), one)

    @classmethod
    def from_quat(cls, q, scalar_first=False, canonical=False):
        n, r, one = cls._rows(q, 4)

        def f(i):
            x, y, z, w = r(i)
            if scalar_first:
                w, x, y, z = x, y, z, w
            m = tm.sqrt(x * x + y * y + z * z + w * w)
            return tuple(tm.div(L(c), m) for c in (w, x, y, z))
        return cls(n, f, one)

    @classmethod
    def from_matrix(cls, m):
        m = snp.asarray(m)
        one = m.ndim == 2
        s = m.snapshot()
        if one:
            get = lambda i, j, k: s((j, k))
            n = 1
        else:
            n = m.shape[0]
            get = lambda i, j, k: s((i, j, k))
        if isinstance(n, T):
            raise Unsupported('from_matrix of a symbolic stack')
        qs = []
        for i in range(n):
            q = tuple(snp.fresh('q', 'R') for _ in range(4))
            explore.assume(tm.eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], num(1)))
            mm = qmat(q)
            for j in range(3):
                for k in range(3):
                    explore.assume(tm.eq(mm[j][k], L(get(i, j, k))))
            qs.append(q)
        return cls(n, lambda i: qs[int(i)], one)

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        angles = snp.asarray(angles)
        if angles.shape != (3,) or len(seq) != 3:
            raise Unsupported('from_euler shape')
        intr = seq.isupper()
        el = []
        for ax, a in zip(seq.lower(), [angles[k] for k in range(3)]):
            a = L(a)
            if degrees:
                a = a * tm.PI / num(180)
            h = tm.mul(num(tm.Fraction(1, 2)), a)
            q = [tm.cos(h), num(0, 'R'), num(0, 'R'), num(0, 'R')]
            q['xyz'.index(ax) + 1] = tm.sin(h)
            el.append(tuple(q))
        a, b, c = el
        q = qmul(qmul(a, b), c) if intr else qmul(qmul(c, b), a)
        return cls(1, lambda i: q, True)

    def as_quat(self, canonical=False, scalar_first=False):
        def row(q):
            return q if scalar_first else (q[1], q[2], q[3], q[0])
        if self.one:
            return snp.ndarray.symb((4,), lambda i: row(self.q(0))[i[0]], F)
        return snp.ndarray.symb((self.n, 4), lambda i: row(self.q(i[0]))[i[1]], F)

    def as_matrix(self):
        if self.one:
            return snp.ndarray.symb((3, 3), lambda i: L(qmat(self.q(0))[i[0]][i[1]]), F)
        return snp.ndarray.symb((self.n, 3, 3), lambda i: L(qmat(self.q(i[0]))[i[1]][i[2]]), F)

    def as_rotvec(self, degrees=False):
        def f(q):
            v2 = q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
            s = tm.sqrt(v2)
            neg = tm.lt(q[0], num(0))
            w = ite(neg, -q[0], q[0])
            sg = ite(neg, num(-1, 'R'), num(1, 'R'))
            ang = tm.mul(num(2), tm.atan2(s, w))
            k = ite(tm.eq(v2, num(0)), num(0, 'R'), sg * ang / s)
            return [k * q[1], k * q[2], k * q[3]]
        if self.one:
            return snp.ndarray.symb((3,), lambda i: f(self.q(0))[i[0]], F)
        return snp.ndarray.symb((self.n, 3), lambda i: f(self.q(i[0]))[i[1]], F)

    def as_euler(self, seq, degrees=False):
        if not self.one:
            raise Unsupported('as_euler of a stack')
        a = [snp.fresh('euler', 'R') for _ in range(3)]
        r = Rotation.from_euler(seq, snp.asarray(a), degrees)
        m1, m0 = qmat(r.q(0)), qmat(self.q(0))
        for j in range(3):
            for k in range(3):
                explore.assume(tm.eq(L(m1[j][k]), L(m0[j][k])))
        return snp.asarray(a)

    def __mul__(self, other):
        a, b = self, other
        n = b.n if a.one else a.n
        if not a.one and not b.one and not snp._same_dim(a.n, b.n):
            if b.n != 1 and a.n != 1:
                raise ValueError('Expected equal number of rotations')
        fa = (lambda i: a.q(0)) if a.one or a.n == 1 else a.q
        fb = (lambda i: b.q(0)) if b.one or b.n == 1 else b.q
        if not a.one and a.n == 1:
            n = b.n
        return Rotation(n, lambda i: qmul(fa(i), fb(i)), a.one and b.one)

    def inv(self):
        def f(i):
            q = self.q(i)
            return (q[0], -q[1], -q[2], -q[3])
        return Rotation(self.n, f, self.one)


OVERRIDES = {('hexrd.core.rotations', 'R'): Rotation}
