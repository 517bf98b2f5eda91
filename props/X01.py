from .common import *
from .X02 import rand_lp, make_cell, metric
import numpy as np
import itertools

check = Check('X01', assumptions=[
    'cells are non-degenerate: positive lengths, angles in (0, pi) with positive cell determinant',
    'unit-cell matrices: np.linalg.inv / det enter through their algebraic definition (adjugate / cofactor expansion)'])
X = 'hexrd.core.material.crystallography:'
U = 'hexrd.core.material.unitcell:'
CONV = PI / 180
CELLS = {  # tag: (parameters, six cell parameters as functions of them)
    'cubic': 'aaa___', 'hexagonal': 'aac__h', 'trigonal': 'aac__h', 'rhombohedral': 'aaaAAA', 'tetragonal': 'aac___',
    'orthorhombic': 'abc___', 'monoclinic': 'abc_B_', 'triclinic': 'abcABG'}


def cell(v, tag, rad=True):
    s = CELLS[tag]
    named = {c: v.reals({'A': 'al', 'B': 'be', 'G': 'ga'}.get(c, c)) for c in sorted(set(s) - {'_', 'h'})}
    par = [named[c] for c in dict.fromkeys(s) if c in named]
    six = [named.get(c, PI / 2 if c == '_' else 2 * PI / 3) for c in s]
    six = [CONV * x if (not rad and c in 'ABG') else x for x, c in zip(six, s)]
    hy = [lt(num(0), named[c]) for c in named]
    return par, six, hy


def gram(six):
    a, b, c = six[:3]
    ca, cb, cg = [tm.cos(x) for x in six[3:]]
    return [[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]]


def nondeg(six):
    ca, cb, cg = [tm.cos(x) for x in six[3:]]
    return [lt(num(0), tm.sin(x)) for x in six[3:]] + [
        lt(num(0), 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg)]


@check.obligations('cosineXform: reciprocal-cell angle', [X + 'cosineXform'])
def _(v):
    f = v.lift(X + 'cosineXform')
    A, B, G = v.reals('A'), v.reals('B'), v.reals('G')
    hy = nondeg([1, 1, 1, A, B, G])
    for o in v.run(lambda: f(A, B, G), hy):
        c, s = o.value
        h = hy + o.pc
        v.prove('spherical law of cosines', h, eq(c * tm.sin(B) * tm.sin(G), tm.cos(B) * tm.cos(G) - tm.cos(A)))
        w = sym('w')
        v.prove('sine and cosine', h + [lt(num(0), 1 - c * c)], eq(s * s + c * c, num(1)))
        v.prove('sine not negative', h, le(num(0), s))


@check.obligations('direct lattice: F is upper triangular with the metric of the cell, for every lattice type', [X + 'latticeVectors', X + 'cosineXform', X + 'getDparms'])
def _(v):
    ca, sa = v.reals('cas'), v.reals('sas')
    for tag in CELLS:
        for rad in (True, False):
            par, six, hy = cell(v, tag, rad)
            args = []

            def cx(a, b, c):
                args.append((a, b, c))
                return (ca, sa) if len(args) % 2 == 1 else (v.reals('c2'), v.reals('s2'))
            f = v.lift(X + 'latticeVectors', contracts={X + 'cosineXform': cx})
            hy = hy + nondeg(six)
            # contract of cosineXform
            k = [lt(num(0), sa), eq(sa * sa, 1 - ca * ca),
                 eq(ca * tm.sin(six[4]) * tm.sin(six[5]), tm.cos(six[4]) * tm.cos(six[5]) - tm.cos(six[3]))]
            pa = snp.asarray(par)
            for o in v.run(lambda: (args.clear(), f(pa, tag, radians=rad))[1], hy + k, max_paths=40):
                r = o.value
                h = hy + k + o.pc
                n = f'{tag} radians={rad} '
                F, B, V = r['F'], r['B'], r['vol']
                v.eq_arrays(n + 'callee gets alpha, beta, gamma', h, snp.asarray(list(args[0])), snp.asarray(six[3:]))
                v.require(n + 'a along x1, c* along x3', all(eq(F[i, j], num(0)) is TRUE for i, j in ((1, 0), (2, 0), (2, 1))), str(rows(F))[:200])
                v.eq_arrays(n + 'dparms', h, r['dparms'], snp.asarray(six), relations=rel(six, ca, sa))
                g = gram(six)
                for i in range(3):
                    for j in range(i, 3):
                        v.prove(n + f'F^T F = metric {i}{j}', h, eq(sum_([F[q, i] * F[q, j] for q in range(3)]), g[i][j]), relations=rel(six, ca, sa))
                v.prove(n + 'diagonal positive', h, and_(*[lt(num(0), F[i, i]) for i in range(3)]))
                v.prove(n + 'volume = product of the diagonal', h, eq(V, F[0, 0] * F[1, 1] * F[2, 2]))
                if tag == 'triclinic':
                    v.eq_arrays(n + 'second call gets the reciprocal angles', h, snp.asarray(list(args[1])), r['rparms'][3:])


def with_inv(inv, thunk):
    """the dependency contract of np.linalg.inv replaced by a fresh matrix (the argument is recorded)"""
    old, snp.linalg.inv = snp.linalg.inv, inv
    try:
        return thunk()
    finally:
        snp.linalg.inv = old


def rel(six, ca, sa):
    return [(sa, 1 - ca * ca)]


@check.obligations('reciprocal lattice: B^T F = I, reciprocal parameters are those of B, U0 carries the Fable frame to X', [X + 'latticeVectors'])
def _(v):
    """latticeVectors against the contract of cosineXform only: F = [a, b, c] upper triangular, positive diagonal"""
    n = [0]
    inv = {}

    def cx(a, b, c):
        n[0] += 1
        return (v.reals('cas'), v.reals('sas')) if n[0] % 2 else (v.reals('c2'), v.reals('s2'))

    def np_inv(m):
        inv['arg'] = m
        return v.reals('I', (3, 3))
    f = v.lift(X + 'latticeVectors', contracts={X + 'cosineXform': cx})
    six = [v.reals(s) for s in ('a', 'b', 'c', 'al', 'be', 'ga')]
    ca, sa, c2, s2 = v.reals('cas'), v.reals('sas'), v.reals('c2'), v.reals('s2')
    hy = [lt(num(0), x) for x in six[:3]] + [lt(num(0), tm.sin(x)) for x in six[4:]] + [lt(num(0), sa), eq(sa * sa, 1 - ca * ca)]
    for o in with_inv(np_inv, lambda: v.run(lambda: f(snp.asarray(six), 'triclinic', radians=True), hy, max_paths=40)):
        r = o.value
        F, B, V, rp, BR, U0 = (r[k] for k in ('F', 'B', 'vol', 'rparms', 'BR', 'U0'))
        h = hy + o.pc
        for i in range(3):
            for j in range(3):
                v.prove(f'B^T F = I {i}{j}', h, eq(sum_([B[k, i] * F[k, j] for k in range(3)]), num(int(i == j))), relations=rel(six, ca, sa))
        col = lambda m, j: [m[k, j] for k in range(3)]
        for j in range(3):
            v.prove(f'reciprocal length {j}', h, eq(rp[j] * rp[j], dot(col(B, j), col(B, j))), relations=rel(six, ca, sa))
            v.prove(f'reciprocal length {j} not negative', h, le(num(0), rp[j]))
        for j, (p, q) in enumerate(((1, 2), (2, 0), (0, 1))):
            w = rp[3 + j]
            v.require(f'reciprocal angle {j} is an arc cosine', w.op == 'acos', str(w)[:100])
            if w.op == 'acos':
                v.prove(f'reciprocal angle {j} is between {p} and {q}', h + [lt(num(0), rp[p]), lt(num(0), rp[q])],
                        eq(w.args[0] * rp[p] * rp[q], dot(col(B, p), col(B, q))), relations=rel(six, ca, sa))
        # Fable frame: a* along x1, metric of the reciprocal lattice
        v.eq_arrays('inverse taken of BR', h, inv['arg'], BR)
        want = [[rp[0], rp[1] * tm.cos(rp[5]), rp[2] * tm.cos(rp[4])],
                [num(0), rp[1] * tm.sin(rp[5]), -(rp[2] * c2 * tm.sin(rp[4]))], [num(0), num(0), rp[2] * s2 * tm.sin(rp[4])]]
        I = v.reals('I', (3, 3))
        for i in range(3):
            for j in range(3):
                v.prove(f'BR {i}{j}', h, eq(BR[i, j], want[i][j]))
                v.prove(f'U0 = B BR^-1 {i}{j}', h, eq(U0[i, j], dot([B[i, k] for k in range(3)], [I[k, j] for k in range(3)])))


@check.obligations('lattice parameters are read back from the lattice vectors', [X + 'latticeParameters'])
def _(v):
    f = v.lift(X + 'latticeParameters')
    a = v.reals('v', (3, 3))
    col = lambda j: [a[k, j] for k in range(3)]
    hy = [lt(num(0), dot(col(j), col(j))) for j in range(3)]
    for o in v.run(lambda: f(a), hy):
        r = o.value
        h = hy + o.pc
        v.require('six', len(r) == 6, str(r)[:80])
        for j in range(3):
            v.prove(f'length {j}', h, eq(r[j] * r[j], dot(col(j), col(j))))
            v.prove(f'length {j} positive', h, lt(num(0), r[j]))
        for j, (p, q) in enumerate(((1, 2), (2, 0), (0, 1))):
            w = r[3 + j]
            v.require('angle is an arc cosine', w.op == 'acos', str(w)[:80])
            if w.op == 'acos':
                v.prove(f'angle {j}', h, eq(w.args[0] * r[p] * r[q], dot(col(p), col(q))))


@check.obligations('Bragg law: plane normals, spacings and two-theta of any reflection list; unreachable reflections are nan', [X + 'latticePlanes'])
def _(v):
    Bs = v.reals('B', (3, 3))
    got = []
    f = v.lift(X + 'latticePlanes', contracts={X + 'latticeVectors': lambda lp, lt_: (got.append((lp, lt_)), {'B': Bs})[1]})
    q = v.reals('q', (3, 1))
    lp = v.reals('lp', (6,))
    for o in v.run(lambda: f(q, lp, 'triclinic'), []):
        g = [dot([Bs[i, k] for k in range(3)], [q[k, 0] for k in range(3)]) for i in range(3)]
        v.require('cell handed on', got and got[-1][1] == 'triclinic' and got[-1][0] is lp, '')
        v.prove('1/d^2 = |B h|^2', o.pc + [lt(num(1), dot(g, g))], eq(L(o.value['dspacings'][0]) * o.value['dspacings'][0] * dot(g, g), num(1)))
        for i in range(3):
            for j in range(3):
                v.prove(f'normal along B h {i}{j}', o.pc + [lt(num(1), dot(g, g))], eq(o.value['normals'][i, 0] * g[j], o.value['normals'][j, 0] * g[i]))
    # the remaining statements depend on h only through B h: B = identity
    B = np.empty((3, 3), object)
    for i in range(3):
        for j in range(3):
            B[i, j] = num(int(i == j), 'R')
    B = snp.ndarray.conc(B, np.dtype(float))
    f = v.lift(X + 'latticePlanes', contracts={X + 'latticeVectors': lambda lp, lt_: {'B': B}})
    wl, sm = v.reals('lambda'), v.reals('strain')
    hkl = v.reals('h', (3, 2))
    for strain in (None, sm):
        hy = [lt(num(0), wl)]
        if strain is not None:
            hy += [lt(num(-1), sm), lt(sm, num(1))]
        G = [[dot([B[i, k] for k in range(3)], [hkl[k, j] for k in range(3)]) for i in range(3)] for j in range(2)]
        hy += [lt(num(tm.Fraction(1, 1000)), dot(g, g)) for g in G]     # unitVector treats shorter vectors than its eps as zero
        for o in v.run(lambda: f(hkl, snp.asarray([num(1)]), 'cubic', wl, strain), hy, max_paths=200):
            r = o.value
            h = hy + o.pc
            d, t, N = r['dspacings'], r['tThetas'], r['normals']
            n = f'strain={"yes" if strain is not None else "no"} '
            for j in range(2):
                v.prove(n + f'1/d^2 = |G|^2 {j}', h, eq(d[j] * d[j] * dot(G[j], G[j]), num(1)))
                v.prove(n + f'd positive {j}', h, lt(num(0), d[j]))
                for i in range(3):
                    v.prove(n + f'normal {i}{j}', h, eq(N[i, j], G[j][i] * d[j]))
                bragg(v, n + f'tTheta {j}', h, t[j], d[j], wl)
                if strain is not None:
                    lo, hi = r['tThetasLo'][j], r['tThetasHi'][j]
                    no = or_(le(2 * d[j] * (1 + sm), wl), le(2 * d[j] * (1 - sm), wl))
                    bragg(v, n + f'low {j}', h, lo, d[j] * (1 + sm), wl, no)
                    bragg(v, n + f'high {j}', h, hi, d[j] * (1 - sm), wl, no)


def bragg(v, name, h, t, d, wl, no=None):
    """2 d sin(theta) = lambda with theta in (0, pi/2), nan exactly when unreachable"""
    no = le(2 * d, wl) if no is None else no
    un = tm.isnan(t)
    v.prove(name + ' nan exactly when unreachable', h, or_(and_(un, no), and_(not_(un), not_(no))))
    v.prove(name + ' Bragg', h + [not_(un)], eq(2 * d * tm.sin(t / 2), wl))
    v.prove(name + ' branch', h + [not_(un)], and_(le(num(0), t), le(t, PI)))


class Cell:
    """the attributes of a unit cell that the geometry methods read"""

    def __init__(self, **k):
        self.__dict__.update(k)

    dmt = property(lambda s: s._dmt)
    rmt = property(lambda s: s._rmt)
    dsm = property(lambda s: s._dsm)
    rsm = property(lambda s: s._rsm)
    vol = property(lambda s: s._vol)


@check.obligations('unit-cell matrices: metric, reciprocal metric and structure matrices belong together', [U + 'unitcell.calcmatrices', U + 'unitcell.CalcLength'])
def _(v):
    f = v.lift(U + 'unitcell.calcmatrices', overrides={('hexrd.core.material.unitcell', 'eps'): 0.0})
    n = {c: v.reals(c) for c in ('a', 'b', 'c', 'alpha', 'beta', 'gamma')}
    rad = [PI / 180 * n[c] for c in ('alpha', 'beta', 'gamma')]
    six = [n['a'], n['b'], n['c']] + [snp.radians(n[c]) for c in ('alpha', 'beta', 'gamma')]
    hy = [lt(num(0), x) for x in six[:3]] + nondeg(six)
    inv = {}
    R = v.reals('R', (3, 3))

    def np_inv(m):
        inv['arg'] = m
        return R
    length = {(1, 0, 0): v.reals('as'), (0, 1, 0): v.reals('bs'), (0, 0, 1): v.reals('cs')}
    calls = []

    def go():
        c = Cell(**n)
        c.CalcLength = lambda u, sp: (calls.append(sp), length[tuple(u)])[1]
        f(c)
        return c
    for o in with_inv(np_inv, lambda: v.run(go, hy, max_paths=60)):
        c = o.value
        h = hy + o.pc
        g = gram(six)
        for i in range(3):
            for j in range(3):
                v.prove(f'direct metric {i}{j}', h, eq(c._dmt[i, j], g[i][j]))
        v.eq_arrays('reciprocal metric is the inverse of the direct metric', h, inv['arg'], c._dmt)
        v.require('reciprocal metric', c._rmt is R or all(x is y for x, y in zip(c._rmt.a.flat, R.a.flat)), '')
        det = g[0][0] * (g[1][1] * g[2][2] - g[1][2] * g[2][1]) - g[0][1] * (g[1][0] * g[2][2] - g[1][2] * g[2][0]) + g[0][2] * (g[1][0] * g[2][1] - g[1][1] * g[2][0])
        v.prove('volume^2 = det of the metric', h + [lt(num(0), det)], eq(c._vol * c._vol, det))
        V = c._vol
        ok = h + [lt(num(0), V), lt(num(0), det)]
        for i in range(3):
            for j in range(3):
                v.prove(f'structure matrix: dsm^T dsm = dmt {i}{j}', ok, eq(sum_([c._dsm[k, i] * c._dsm[k, j] for k in range(3)]), g[i][j]))
                v.prove(f'reciprocal structure matrix: rsm^T dsm = I {i}{j}', ok, eq(sum_([c._rsm[k, i] * c._dsm[k, j] for k in range(3)]), num(int(i == j))))
        v.require('reciprocal lengths', set(calls) == {'r'}, str(calls))
        st = [v.reals(x) for x in ('as', 'bs', 'cs')]
        for i in range(3):
            for j in range(3):
                v.prove(f'products of reciprocal lengths {i}{j}', h, eq(c._aij[i, j], st[i] * st[j]))


def symcell(v):
    """a cell whose matrices satisfy the class invariant of calcmatrices: dsm upper triangular, rsm = dsm^-T, dmt = dsm^T dsm, rmt = rsm^T rsm"""
    d = [v.reals(x) for x in ('d11', 'd12', 'd13', 'd22', 'd23', 'd33')]
    o = num(0, 'R')
    D = [[d[0], d[1], d[2]], [o, d[3], d[4]], [o, o, d[5]]]
    R = [[1 / d[0], o, o], [-d[1] / (d[0] * d[3]), 1 / d[3], o],
         [(d[1] * d[4] - d[2] * d[3]) / (d[0] * d[3] * d[5]), -d[4] / (d[3] * d[5]), 1 / d[5]]]
    A = lambda m: snp.ndarray.conc(_obj(m), np.dtype(float))
    c = Cell(_dsm=A(D), _rsm=A(R), _dmt=A(matmul(tr(D), D)), _rmt=A(matmul(tr(R), R)), _vol=d[0] * d[3] * d[5])
    return c, [lt(num(0), d[0]), lt(num(0), d[3]), lt(num(0), d[5])]


def _obj(m):
    a = np.empty((len(m), len(m[0])), object)
    for i, r in enumerate(m):
        for j, x in enumerate(r):
            a[i, j] = x
    return a


@check.obligations('changing space: all nine transforms agree, lengths, dot products and angles do not depend on the space', [
    U + 'unitcell.TransSpace', U + 'unitcell.CalcDot', U + 'unitcell.CalcLength', U + 'unitcell.NormVec', U + 'unitcell.CalcAngle'])
def _(v):
    T_ = v.lift(U + 'unitcell.TransSpace')
    dotf, len_, nrm, ang = [v.lift(U + 'unitcell.' + x) for x in ('CalcDot', 'CalcLength', 'NormVec', 'CalcAngle')]
    c, hy = symcell(v)
    u, w = v.reals('u', (3,)), v.reals('w', (3,))
    sp = 'drc'
    D = rows(c._dsm)
    for a in sp:
        for b in sp:
            for o in v.run(lambda: T_(c, T_(c, u, a, b), b, a), hy):
                v.eq_arrays(f'round trip {a}{b}', hy + o.pc, o.value, u)
            for o in v.run(lambda: (
                    dotf(c, T_(c, u, a, b), T_(c, w, a, b), b), dotf(c, u, w, a)), hy):
                v.prove(f'dot product {a}{b}', hy + o.pc, eq(*o.value))
            for m in sp:
                for o in v.run(lambda: (T_(c, T_(c, u, a, b), b, m), T_(c, u, a, m)), hy):
                    v.eq_arrays(f'{a} to {m} through {b}', hy + o.pc, *o.value)
    for o in v.run(lambda: T_(c, u, 'd', 'c'), hy):
        v.eq_arrays('cartesian components are dsm u', hy + o.pc, o.value, snp.asarray([dot(r, [u[k] for k in range(3)]) for r in D]))
    for a in sp:
        for o in v.run(lambda: (len_(c, u, a), dotf(c, u, u, a)), hy):
            l, d2 = o.value
            v.prove(f'length {a}', hy + o.pc + [le(num(0), d2)], and_(eq(L(l) * l, d2), le(num(0), l)))
    for bad in ('x', 'D', ''):
        for a, b in ((bad, 'd'), ('d', bad), ('r', bad), ('c', bad)):
            for o in v.run(lambda: T_(c, u, a, b), hy, allow_exc=True):
                v.require(f'unknown space {a!r} to {b!r} is refused', isinstance(o.exc, ValueError), repr(o.exc))


@check.obligations('unit vectors, angles and cross products', [U + 'unitcell.NormVec', U + 'unitcell.CalcAngle', U + 'unitcell.CalcCross', U + 'unitcell.TransSpace'])
def _(v):
    nrm, ang, crs, T_, dotf = [v.lift(U + 'unitcell.' + x) for x in ('NormVec', 'CalcAngle', 'CalcCross', 'TransSpace', 'CalcDot')]
    c, hy = symcell(v)
    u, w = v.reals('u', (3,)), v.reals('w', (3,))
    c.TransSpace = lambda *a: T_(c, *a)
    lu, lw, dd = v.reals('lu'), v.reals('lw'), v.reals('dd')
    c.CalcLength = lambda x, sp: lu if x is u else lw
    c.CalcDot = lambda x, y, sp: dd
    pos = hy + [lt(num(0), lu), lt(num(0), lw), le(dd * dd, lu * lu * lw * lw)]
    for a in 'drc':
        for o in v.run(lambda: nrm(c, u, a), pos):
            v.eq_arrays(f'NormVec {a}', pos + o.pc, o.value, snp.asarray([u[k] / lu for k in range(3)]))
        for o in v.run(lambda: ang(c, u, w, a), pos):
            r = o.value
            x = dd / (lu * lw)
            tol = num(tm.Fraction(2, 10 ** 5))
            v.prove(f'CalcAngle {a}: cosine', pos + o.pc + [lt(tm.absv(x), 1 - tol)], eq(tm.cos(r), x))
            v.prove(f'CalcAngle {a}: range', pos + o.pc + [lt(tm.absv(x), 1 - tol)], and_(le(num(0), r), le(r, PI)))
            v.prove(f'CalcAngle {a}: parallel vectors', pos + o.pc + [lt(num(0), dd), eq(dd, lu * lw)], eq(r, num(0)))
            v.prove(f'CalcAngle {a}: opposite vectors', pos + o.pc + [lt(dd, num(0)), eq(dd, -lu * lw)], eq(r, PI))
    # the cross product in any space is the cartesian cross product of the cartesian components, up to the volume factor
    for a in 'drc':
        for b in 'drc':
            for vd in (True, False):
                for o in v.run(lambda: (T_(c, crs(c, u, w, a, b, vol_divide=vd), b, 'c'), T_(c, u, a, 'c'), T_(c, w, a, 'c')), hy):
                    r, p, q = o.value
                    k = num(1, 'R') if vd or a == 'c' else (1 / c._vol if a == 'd' else c._vol)
                    X_ = cross([L(p[i]) for i in range(3)], [L(q[i]) for i in range(3)])
                    v.eq_arrays(f'CalcCross {a} to {b} volume={vd}', hy + o.pc, r, snp.asarray([k * x for x in X_]))


@check.obligations('index conversions: rhombohedral and hexagonal, Miller and Miller-Bravais', [
    X + 'hexagonalIndicesFromRhombohedral', X + 'rhombohedralIndicesFromHexagonal', X + 'rhombohedralParametersFromHexagonal',
    X + 'convert_Miller_direction_to_cartesian', X + 'convert_MillerBravias_direction_to_Miller'])
def _(v):
    h2r, r2h = v.lift(X + 'rhombohedralIndicesFromHexagonal'), v.lift(X + 'hexagonalIndicesFromRhombohedral')
    n, i = v.dim('n'), v.dim('i')
    H = v.array('H', (3, n), 'I')
    hyp = [le(num(1), n), le(num(0), i), lt(i, n)]
    for o in v.run(lambda: h2r(r2h(H)), [le(num(1), n)]):
        for k in range(3):
            v.prove(f'rhombohedral -> hexagonal -> rhombohedral {k}', o.pc + hyp, eq(o.value.el((k, i)), H.el((k, i))))
    for o in v.run(lambda: r2h(H), [le(num(1), n)]):
        K = [o.value.el((k, i)) for k in range(3)]
        v.prove('hexagonal indices of a rhombohedral triple satisfy the obverse condition', o.pc + hyp, eq((-K[0] + K[1] + K[2]) % 3, num(0)))
    f = v.lift(X + 'rhombohedralParametersFromHexagonal')
    a, c = v.reals('a'), v.reals('c')
    hy = [lt(num(0), a), lt(num(0), c)]
    for o in v.run(lambda: f(a, c), hy):
        ar, al = o.value
        h = hy + o.pc
        v.prove('a_r^2', h, eq(9 * ar * ar, 3 * a * a + c * c))
        v.prove('a_r positive', h, lt(num(0), ar))
        v.require('alpha is twice an arc sine', L(al).args[1].op == 'asin', str(al)[:100])
        x = L(al).args[1].args[0]
        # cos(alpha) = 1 - 2 x^2 must equal (2c^2 - 3a^2) / (2 (3a^2 + c^2)); x >= 0
        v.prove('cos alpha', h, eq((1 - 2 * x * x) * 2 * (3 * a * a + c * c), 2 * c * c - 3 * a * a))
        v.prove('half angle not negative', h, le(num(0), x))
    g = v.lift(X + 'convert_Miller_direction_to_cartesian')
    w = v.reals('w', (2, 3))
    for o in v.run(lambda: g(w, a, c), hy):
        for k in range(2):
            s3 = tm.sqrt(num(3))
            a1, a2, a3 = [num(1, 'R'), num(0, 'R')], [-half(), s3 / 2], [-half(), -s3 / 2]
            t = -(w[k, 0] + w[k, 1])
            for q in range(2):
                v.prove(f'[uv.w] components {k}{q}', hy + o.pc, eq(o.value[k, q], a * (w[k, 0] * a1[q] + w[k, 1] * a2[q] + t * a3[q])))
            v.prove(f'[uv.w] components {k}2', hy + o.pc, eq(o.value[k, 2], c * w[k, 2]))
    m = v.lift(X + 'convert_MillerBravias_direction_to_Miller')
    for o in v.run(lambda: m(w)):
        v.require('one row per direction', o.value.shape == (2, 3), str(o.value.shape))
        for k in range(2):
            # u a1 + v a2 - (u + v) a3 + w c with a3 = -a1 - a2
            U_, V_, W_ = [w[k, q] for q in range(3)]
            for q, want in enumerate((2 * U_ + V_, 2 * V_ + U_, W_)):
                v.prove(f'four to three indices {k}{q}', o.pc, eq(o.value[k, q], want))


def rand6(t):
    while True:
        p = np.r_[t.rng.uniform(2, 12, 3), t.rng.uniform(50, 130, 3)]
        ca, cb, cg = np.cos(np.radians(p[3:]))
        if 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg > .05:
            return p


def gram_n(p):
    ca, cb, cg = np.cos(np.radians(p[3:]))
    a, b, c = p[:3]
    return np.array([[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]])


@check.runtime('lattice vectors and lattice planes of random cells', [X + 'latticeVectors', X + 'latticePlanes', X + 'latticeParameters'], n=120)
def _(t):
    from hexrd.core.material import crystallography as cr
    for k in t.cases():
        tag = sorted(CELLS)[k % len(CELLS)]
        p = rand6(t)
        s = CELLS[tag]
        full = np.array([p[{'a': 0, 'b': 1, 'c': 2, 'A': 3, 'B': 4, 'G': 5, '_': 0, 'h': 0}[c]] for c in s])
        full[[i for i, c in enumerate(s) if c == '_']] = 90
        full[[i for i, c in enumerate(s) if c == 'h']] = 120
        if np.linalg.det(gram_n(full)) < 1:
            continue
        lp = np.array([full[s.index(c)] for c in dict.fromkeys(s) if c not in '_h'])
        rad = bool(k % 2)
        arg = lp.copy()
        if rad:
            arg[[i for i, c in enumerate([c for c in dict.fromkeys(s) if c not in '_h']) if c in 'ABG']] *= np.pi / 180
        keep = arg.copy()
        r = cr.latticeVectors(arg, tag, radians=rad)
        d = dict(tag=tag, lparms=lp, radians=rad)
        t.expect((arg == keep).all(), 'input modified', **d)
        g = gram_n(full)
        t.close(r['F'].T @ r['F'], g, 'F^T F is the metric', atol=1e-8, **d)
        t.close(r['B'].T @ r['F'], np.eye(3), 'B^T F = I', atol=1e-9, **d)
        t.close(r['vol'], np.sqrt(np.linalg.det(g)), 'volume', **d)
        t.close(r['BR'].T @ r['BR'], np.linalg.inv(g), 'BR has the reciprocal metric', atol=1e-9, **d)
        t.close(r['U0'] @ r['BR'], r['B'], 'U0 BR = B', atol=1e-9, **d)
        t.close(r['U0'].T @ r['U0'], np.eye(3), 'U0 orthogonal', atol=1e-8, **d)
        t.close(np.r_[r['dparms'][:3], np.degrees(r['dparms'][3:])], full, 'dparms', **d)
        t.close(np.ravel(cr.latticeParameters(r['F']))[:6], r['dparms'], 'parameters of F', atol=1e-8, **d)
        h = t.rng.integers(-6, 7, size=(3, 12))
        h = h[:, np.abs(h).sum(0) > 0]
        wl = t.rng.uniform(.1, 3)
        sm = t.rng.uniform(0, .1)
        q = cr.latticePlanes(h, lp, ltype=tag, wavelength=wl, strainMag=sm)
        dd = 1 / np.sqrt(np.einsum('ik,ij,jk->k', h, np.linalg.inv(g), h))
        t.close(q['dspacings'], dd, 'd-spacings', **d)
        for key, sp in (('tThetas', dd), ('tThetasLo', dd * (1 + sm)), ('tThetasHi', dd * (1 - sm))):
            with np.errstate(invalid='ignore'):
                w = 2 * np.arcsin(wl / 2 / sp)
            if key != 'tThetas':
                w[~((wl / 2 / dd / (1 + sm) < 1) & (wl / 2 / dd / (1 - sm) < 1))] = np.nan
            t.close(q[key], w, key, **d)


@check.runtime('unit cell: matrices, stars and orbits in every space', [
    U + 'unitcell.calcmatrices', U + 'unitcell.CalcStar', U + 'unitcell.CalcOrbit', U + 'unitcell.GenerateRecipPGSym',
    U + 'unitcell.GenerateCartesianPGSym', U + 'unitcell.CalcBraggAngle'], n=46, thorough=5)
def _(t):
    from hexrd.core.material import spacegroup as sg
    from vc import hall
    order = t.rng.permutation(230) + 1
    for k in t.cases():
        s = int(order[k % 230])
        uc = make_cell(rand_lp(t.rng, s, False), s, 0.2, 20.)
        d = dict(sgnum=s, lparms=[uc.a, uc.b, uc.c, uc.alpha, uc.beta, uc.gamma])
        g = gram_n(d['lparms'])
        t.close(uc.dmt, g, 'direct metric', **d)
        t.close(uc.rmt @ g, np.eye(3), 'reciprocal metric', atol=1e-9, **d)
        t.close(uc.dsm.T @ uc.dsm, g, 'structure matrix', atol=1e-9, **d)
        t.close(uc.rsm.T @ uc.dsm, np.eye(3), 'reciprocal structure matrix', atol=1e-9, **d)
        t.close(uc.vol, np.sqrt(np.linalg.det(g)), 'volume', **d)
        A = uc.dsm
        basis = dict(d=A, r=np.linalg.inv(A).T, c=np.eye(3))
        u, w = (t.rng.integers(-4, 5, 3).astype(float) if k % 2 else t.rng.normal(size=3) for _ in range(2))
        u[0] += 5
        w[1] += 5.5
        for sp, Bs in basis.items():
            cu = Bs @ u
            t.close(uc.CalcLength(u, sp), np.linalg.norm(cu), f'length in space {sp}', u=u, **d)
            t.close(Bs @ uc.NormVec(u, sp), cu / np.linalg.norm(cu), f'unit vector in space {sp}', u=u, **d)
            for x in (w, u, -u, -1.5 * u, 3 * u, -u + 1e-9 * w):
                cx = Bs @ x
                t.close(uc.CalcDot(u, x, sp), cu @ cx, f'dot product in space {sp}', u=u, w=x, atol=1e-9 * np.linalg.norm(cu) * np.linalg.norm(cx), **d)
                t.close(uc.CalcAngle(u, x, sp), np.arctan2(np.linalg.norm(np.cross(cu, cx)), cu @ cx), f'angle in space {sp}', u=u, w=x, atol=5e-3, **d)
            for so, Bo in basis.items():
                t.close(Bo @ uc.TransSpace(u, sp, so), cu, f'vector from space {sp} to {so}', u=u, atol=1e-9 * np.linalg.norm(cu), **d)
                got = Bo @ uc.CalcCross(u, w, sp, so, vol_divide=True)
                cc = np.cross(cu, Bs @ w)
                t.close(got, cc, f'cross product from space {sp} to {so}', u=u, w=w, atol=1e-9 * np.linalg.norm(cu) * np.linalg.norm(Bs @ w), **d)
        ops = sorted(hall.group(sg.lookupHall[s]))
        W = {tuple(w) for w, _ in ops}
        h = t.rng.integers(-4, 5, 3)
        if k % 3 == 0:
            h = h * (t.rng.random(3) < .5)
        h = h if h.any() else np.array([1, 0, 0])
        star = {tuple(int(x) for x in h @ np.array(w).reshape(3, 3)) for w in W}
        full = star | {tuple(-np.array(x)) for x in star}
        for laue, want in ((False, star), (True, full)):
            got = uc.CalcStar(h, 'r', applyLaue=laue)
            gs = {tuple(int(round(y)) for y in x) for x in got}
            t.expect(len(got) == len(gs) and gs == want, f'star of a reflection, laue={laue}', hkl=h, got=sorted(gs), want=sorted(want), **d)
        t.close([np.einsum('i,ij,j', x, uc.rmt, x) for x in uc.CalcStar(h, 'r', applyLaue=True)], np.full(len(full), h @ uc.rmt @ h), 'star has one d-spacing', **d)
        dstar = {tuple(int(x) for x in np.array(w).reshape(3, 3) @ h) for w in W}
        gd = {tuple(int(round(y)) for y in x) for x in uc.CalcStar(h, 'd')}
        t.expect(gd == dstar, 'star of a direction', uvw=h, **d)
        for S in list(uc.SYM_PG_c) + list(uc.SYM_PG_c_laue):
            t.close(S @ S.T, np.eye(3), 'cartesian operations are orthogonal', atol=1e-7, **d)
        x = t.rng.integers(0, 48, 3) / 48      # images of such a point coincide or are well apart
        if k % 2:
            x = t.rng.choice([0, .25, .5, .75, 0.1], 3)
        pos, num_ = uc.CalcOrbit(x)
        imgs = []
        for w, tr_ in ops:
            y = (np.array(w).reshape(3, 3) @ x + np.array(tr_) / 24) % 1
            y[np.abs(y - 1) < 1e-9] = 0
            if not any(np.abs((y - z + .5) % 1 - .5).max() < 1e-6 for z in imgs):
                imgs.append(y)
        t.expect(num_ == len(pos) == len(imgs), f'orbit size {num_} instead of {len(imgs)}', pos=x, **d)
        for y in pos:
            t.expect(any(np.abs((y - z + .5) % 1 - .5).max() < 1e-5 for z in imgs), 'orbit point not equivalent', pos=x, point=y, **d)
            t.expect((y >= 0).all() and (y < 1).all(), 'orbit point inside the cell', pos=x, point=y, **d)
        sth = uc.wavelength / 2 * np.sqrt(h @ uc.rmt @ h)
        if sth < 1:
            t.close(uc.CalcBraggAngle(h), np.arcsin(sth), 'Bragg angle', hkl=h, **d)


@check.runtime('three-index directions to four indices and back', [X + 'convert_Miller_direction_to_MillerBravias', X + 'convert_MillerBravias_direction_to_Miller'], n=200)
def _(t):
    from hexrd.core.material import crystallography as cr
    for k in t.cases():
        h = t.rng.integers(-5, 6, size=(int(t.rng.integers(1, 5)), 3))
        h[~h.any(1)] = [1, 2, 0]
        three = cr.convert_Miller_direction_to_MillerBravias(h)
        four = cr.convert_Miller_direction_to_MillerBravias(h, suppress_redundant=False)
        t.expect(three.shape == h.shape and four.shape == (len(h), 4), 'shapes', uvw=h)
        t.close(four[:, [0, 1, 3]], three, 'same indices', uvw=h)
        t.close((four[:, :3].sum(1)) / np.abs(four).max(1), np.zeros(len(h)), 'redundant index', atol=1e-9, uvw=h)
        back = cr.convert_MillerBravias_direction_to_Miller(three)
        t.expect(back.shape == h.shape, 'shape', uvw=h)
        nb = back / np.sqrt((back ** 2).sum(1))[:, None]
        t.close(np.cross(nb, h), np.zeros(h.shape), 'same direction', atol=1e-7, uvw=h)
        t.expect(((back * h).sum(1) > 0).all(), 'same sense', uvw=h)
