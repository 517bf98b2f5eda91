from .common import *
import numpy as np

check = Check('M01', assumptions=[
    'contracts over stacks of tensors are discharged at concrete stack sizes where the code reshapes; other statements hold for any stack'])
M = 'hexrd.core.matrixutil:'


def symt(v, name):
    """symmetric 3x3 of symbols"""
    a = np.empty((3, 3), object)
    for i in range(3):
        for j in range(i, 3):
            a[i, j] = a[j, i] = sym(f'{name}{i}{j}')
    return snp.ndarray.conc(a, np.dtype(float))


def flat(x):
    return list(snp.asarray(x).a.reshape(-1))


def ddot(a, b):
    return sum_([L(a[i, j]) * L(b[i, j]) for i in range(3) for j in range(3)])


PAIRS = [('symmToVecMV', 'vecMVToSymm', 'orthonormal'), ('strainTenToVec', 'strainVecToTen', 'engineering'),
         ('stressTenToVec', 'stressVecToTen', 'plain'), ('symmToVecds', 'vecdsToSymm', 'orthonormal')]


@check.obligations('tensor to vector and back is the identity', [M + x for p in PAIRS for x in p[:2]])
def _(v):
    A = symt(v, 'A')
    x = v.reals('x', (6,))
    for to, fro, kind in PAIRS:
        f, g = v.lift(M + to), v.lift(M + fro)
        for o in v.run(lambda: (f(A), g(x))):
            a, t = o.value
            arg = snp.asarray(a).reshape(-1) if hasattr(a, 'reshape') else a
            v.require(f'{to} six components', len(flat(a)) == 6, str(snp.asarray(a).shape))
            for o2 in v.run(lambda: (g(arg), f(t))):
                v.eq_arrays(f'{fro}({to}(A)) = A', o.pc + o2.pc, o2.value[0], A)
                v.eq_arrays(f'{to}({fro}(x)) = x', o.pc + o2.pc, snp.asarray(o2.value[1]).reshape(-1), x)
            v.prove(f'{fro} symmetric', o.pc, and_(*[eq(t[i, j], t[j, i]) for i in range(3) for j in range(i)]))
    for sc in (True, False):
        f, g = v.lift(M + 'symmToVecMV'), v.lift(M + 'vecMVToSymm')
        for o in v.run(lambda: g(f(A, scale=sc), scale=sc)):
            v.eq_arrays(f'MV round trip scale={sc}', o.pc, o.value, A)


@check.obligations('inner products: Mandel-Voigt and deviatoric bases are orthonormal, stress and strain vectors are work conjugate', [
    M + 'symmToVecMV', M + 'symmToVecds', M + 'strainTenToVec', M + 'stressTenToVec', M + 'traceToVecdsS', M + 'vecdsSToTrace'])
def _(v):
    A, B = symt(v, 'A'), symt(v, 'B')
    for n in ('symmToVecMV', 'symmToVecds'):
        f = v.lift(M + n)
        for o in v.run(lambda: (f(A), f(B))):
            v.prove(f'{n} preserves the inner product', o.pc, eq(dot(flat(o.value[0]), flat(o.value[1])), ddot(A, B)))
    s, e = v.lift(M + 'stressTenToVec'), v.lift(M + 'strainTenToVec')
    for o in v.run(lambda: (s(A), e(B))):
        v.prove('work', o.pc, eq(dot(flat(o.value[0]), flat(o.value[1])), ddot(A, B)))
        v.prove('order', o.pc, and_(*[eq(a, A[i, j]) for a, (i, j) in zip(flat(o.value[0]), ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)))]))
    t, u = v.lift(M + 'traceToVecdsS'), v.lift(M + 'vecdsSToTrace')
    x = v.reals('x')
    for o in v.run(lambda: u(t(x))):
        v.prove('trace scaling round trip', o.pc, eq(o.value, x))
    f = v.lift(M + 'symmToVecds')
    for o in v.run(lambda: u(f(A)[5])):
        v.prove('sixth component carries the trace', o.pc, eq(o.value, A[0, 0] + A[1, 1] + A[2, 2]))


@check.obligations('normal projection: N . A = n A n for the unit normals', [M + 'nrmlProjOfVecMV', M + 'symmToVecMV', M + 'unitVector'])
def _(v):
    f, g = v.lift(M + 'nrmlProjOfVecMV'), v.lift(M + 'symmToVecMV')
    A = symt(v, 'A')
    w = v.reals('w', (3, 2))
    for o in v.run(lambda: (f(w), g(A))):
        N, a = o.value
        v.require('shape', N.shape == (2, 6), str(N.shape))
        for k in range(2):
            n = [w[i, k] for i in range(3)]
            n2 = dot(n, n)
            hyp = o.pc + [lt(num(tm.Fraction(1, 10 ** 20)), n2)]
            q = sum_([n[i] * A[i, j] * n[j] for i in range(3) for j in range(3)])
            v.prove(f'projection {k}', hyp, eq(dot([N[k, i] for i in range(6)], flat(a)) * n2, q))


@check.obligations('unit vectors and norms', [M + 'unitVector', M + 'columnNorm', M + 'rowNorm'])
def _(v):
    f, c, r = v.lift(M + 'unitVector'), v.lift(M + 'columnNorm'), v.lift(M + 'rowNorm')
    w = v.reals('w', (3, 2))
    for o in v.run(lambda: (f(w), c(w), r(w))):
        u, cn, rn = o.value
        for k in range(2):
            x = [w[i, k] for i in range(3)]
            n2 = dot(x, x)
            big = o.pc + [lt(num(tm.Fraction(1, 10 ** 20)), n2)]
            y = [u[i, k] for i in range(3)]
            v.prove(f'unit {k}', big, eq(dot(y, y), num(1)))
            for i in range(3):
                v.prove(f'same direction {k}{i}', big, eq(y[i] * tm.sqrt(n2), x[i]))
            v.prove(f'zero stays zero {k}', o.pc + [eq(z, num(0)) for z in x], and_(*[eq(z, num(0)) for z in y]))
            v.prove(f'column norm {k}', o.pc, and_(eq(cn[k] * cn[k], n2), le(num(0), cn[k])))
        for i in range(3):
            v.prove(f'row norm {i}', o.pc, and_(eq(rn[i] * rn[i], w[i, 0] * w[i, 0] + w[i, 1] * w[i, 1]), le(num(0), rn[i])))


@check.obligations('symmetric and skew parts; axial vectors', [M + 'symm', M + 'skew', M + 'skewMatrixOfVector', M + 'vectorOfSkewMatrix'])
def _(v):
    s, k = v.lift(M + 'symm'), v.lift(M + 'skew')
    for shp in ((3, 3), (2, 3, 3), (2, 2)):
        A = v.reals('A', shp)
        for o in v.run(lambda: (s(A), k(A))):
            S, K = o.value
            v.require(f'{shp} shape', S.shape == shp == K.shape, f'{S.shape}')
            v.require(f'{shp} input keeps its shape', A.shape == shp, f'{A.shape}')
            for ix in np.ndindex(*shp):
                t = ix[:-2] + (ix[-1], ix[-2])
                v.prove(f'{shp} sum {ix}', o.pc, eq(S[ix] + K[ix], A[ix]))
                v.prove(f'{shp} symmetric {ix}', o.pc, eq(S[ix], S[t]))
                v.prove(f'{shp} skew {ix}', o.pc, eq(K[ix], -K[t]))
    f, g = v.lift(M + 'skewMatrixOfVector'), v.lift(M + 'vectorOfSkewMatrix')
    x = v.reals('x', (3,))
    for shp in ((3,), (3, 1), (3, 2)):
        w = v.reals('w', shp)
        for o in v.run(lambda: f(w)):
            W = o.value
            n = 1 if len(shp) == 1 else shp[1]
            v.require(f'{shp} shape', W.shape == ((n, 3, 3) if n > 1 else (3, 3)), str(W.shape))
            for j in range(n):
                wj = [w[i] if len(shp) == 1 else w[i, j] for i in range(3)]
                Wj = W if n == 1 else W[j]
                cr = cross(wj, [x[i] for i in range(3)])
                for i in range(3):
                    v.prove(f'{shp} cross product {j}{i}', o.pc, eq(sum_([Wj[i, m] * x[m] for m in range(3)]), cr[i]))
            for o2 in v.run(lambda: g(W)):
                v.require(f'{shp} axial shape', o2.value.shape == (3, n), str(o2.value.shape))
                for j in range(n):
                    for i in range(3):
                        v.prove(f'{shp} axial vector {j}{i}', o2.pc, eq(o2.value[i, j], w[i] if len(shp) == 1 else w[i, j]))


@check.obligations('dyads and stacked matrix products', [M + 'rankOneMatrix', M + 'multMatArray'])
def _(v):
    f, g = v.lift(M + 'rankOneMatrix'), v.lift(M + 'multMatArray')
    a, b = v.reals('a', (3, 2)), v.reals('b', (2, 2))
    for o in v.run(lambda: (f(a), f(a, b))):
        r, q = o.value
        v.require('shape', r.shape == (2, 3, 3) and q.shape == (2, 3, 2), f'{r.shape} {q.shape}')
        for k in range(2):
            for i in range(3):
                for j in range(3):
                    v.prove(f'self dyad {k}{i}{j}', o.pc, eq(r[k, i, j], a[i, k] * a[j, k]))
                for j in range(2):
                    v.prove(f'dyad {k}{i}{j}', o.pc, eq(q[k, i, j], a[i, k] * b[j, k]))
    A, B = v.reals('A', (2, 2, 3)), v.reals('B', (2, 3, 2))
    for o in v.run(lambda: g(A, B)):
        for k in range(2):
            for i in range(2):
                for j in range(2):
                    v.prove(f'product {k}{i}{j}', o.pc, eq(o.value[k, i, j], sum_([A[k, i, m] * B[k, m, j] for m in range(3)])))
    for o in v.run(lambda: g(A, A), allow_exc=True):
        v.require('mismatch rejected', isinstance(o.exc, RuntimeError), repr(o.exc))


@check.obligations('vecds volumetric split of strain output', [M + 'ale3dStrainOutToV'])
def _(v):
    f = v.lift(M + 'ale3dStrainOutToV')
    x = v.reals('x', (6,))
    for o in v.run(lambda: f(x)):
        V, Vi = o.value
        for m, n in ((V, 'V'), (Vi, 'Vinv')):
            v.prove(f'{n} symmetric', o.pc, and_(*[eq(m[i, j], m[j, i]) for i in range(3) for j in range(i)]))


@check.runtime('rotation aligning two vector sets (Wahba)', [M + 'solve_wahba'], n=60)
def _(t):
    from hexrd.core import matrixutil as mu
    for k in t.cases():
        n = int(t.rng.integers(2, 7))
        R = nrot(rand_rot(t.rng))
        a = t.rng.normal(size=(n, 3))
        w = t.rng.uniform(0.2, 2, n) if k % 2 else None
        got = mu.solve_wahba(a, a @ R.T, weights=w)
        t.close(got, R, 'rotation not recovered', atol=1e-8, vectors=a, R=R, weights=w)
        b = a @ R.T + 0.05 * t.rng.normal(size=a.shape)
        got = mu.solve_wahba(a, b, weights=w)
        t.close(got @ got.T, np.eye(3), 'orthonormal', atol=1e-9, vectors=a)
        t.expect(abs(np.linalg.det(got) - 1) < 1e-9, 'proper', vectors=a, det=np.linalg.det(got))
        ww = np.ones(n) if w is None else w
        J = lambda Q: (ww[:, None] * (b - a @ Q.T) ** 2).sum()
        for _r in range(4):
            t.expect(J(got) <= J(got @ nrot(t.rng.normal(size=3) * 0.05)) + 1e-12, 'not a minimum', vectors=a, target=b, weights=w)


@check.runtime('unique and duplicate vectors', [M + 'uniqueVectors', M + 'findDuplicateVectors', M + '_findduplicatevectors'], n=60)
def _(t):
    from hexrd.core import matrixutil as mu
    for k in t.cases():
        d, n = int(t.rng.integers(2, 5)), int(t.rng.integers(2, 14))
        x = t.rng.integers(-2, 3, (d, n)).astype(float)
        cols = [tuple(c) for c in x.T]
        u = mu.uniqueVectors(x)
        uc = [tuple(c) for c in u.T]
        t.expect(len(uc) == len(set(uc)) and set(uc) == set(cols), 'unique columns', vec=x, got=u)
        for pm in (False, True):
            key = (lambda c: max(c, tuple(-y for y in c))) if pm else (lambda c: c)
            eqv, uid = mu.findDuplicateVectors(x, tol=1e-8, equivPM=pm)
            cls = {}
            for i, c in enumerate(cols):
                cls.setdefault(tuple(y + 0. for y in key(c)), []).append(i)
            t.expect([int(i) for i in uid] == sorted(c[0] for c in cls.values()), 'first member of each class', vec=x, pm=pm, got=uid)
            want = sorted(c for c in cls.values() if len(c) > 1)
            t.expect(sorted([int(y) for y in e] for e in eqv) == want, 'equivalence classes', vec=x, pm=pm, got=eqv)


@check.runtime('null space, block-sparse form, threshold extraction', [M + 'nullSpace', M + 'blockSparseOfMatArray', M + 'extract_ijv'], n=60)
def _(t):
    from hexrd.core import matrixutil as mu
    for k in t.cases():
        r = int(t.rng.integers(1, 3))
        A = t.rng.normal(size=(3, r)) @ t.rng.normal(size=(r, 4))
        N = mu.nullSpace(A[:, :3] if k % 2 else A[:2] if r == 1 else A, tol=1e-10)
        B = A[:, :3] if k % 2 else A[:2] if r == 1 else A
        t.close(B @ N.T, np.zeros((B.shape[0], N.shape[0])), 'null vectors', atol=1e-8, A=B)
        t.close(N @ N.T, np.eye(len(N)), 'orthonormal', atol=1e-9, A=B)
        t.expect(len(N) == B.shape[1] - np.linalg.matrix_rank(B, 1e-9), 'dimension', A=B, got=N)
        p, m, n = (int(x) for x in t.rng.integers(1, 4, 3))
        if p * m * n > 1:
            S = t.rng.normal(size=(p, m, n))
            D = np.zeros((p * m, p * n))
            for j in range(p):
                D[j * m:(j + 1) * m, j * n:(j + 1) * n] = S[j]
            t.close(mu.blockSparseOfMatArray(S).toarray(), D, 'block diagonal', S=S)
        im = t.rng.integers(0, 9, (6, 5)).astype(np.uint16)
        th = int(t.rng.integers(0, 9))
        i, j, q = np.zeros(30, np.uint16), np.zeros(30, np.uint16), np.zeros(30, np.uint16)
        c = mu.extract_ijv(im, th, i, j, q)
        ii, jj = np.nonzero(im > th)
        t.expect(c == len(ii) and (i[:c] == ii).all() and (j[:c] == jj).all() and (q[:c] == im[ii, jj]).all(), 'pixels above threshold', image=im, threshold=th)
        a3 = t.rng.normal(size=(3, 3))
        for f in (mu.symm, mu.skew):
            f(a3)
            t.expect(a3.shape == (3, 3), 'input reshaped in place', shape=a3.shape)
