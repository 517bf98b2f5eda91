from .common import *
import numpy as np

check = Check('R02', assumptions=[
    'scipy.spatial.transform.Rotation obeys the contract in vc/deps.py (its documented conventions)',
    'arrays of quaternions are verified at the stated column counts where the code reshapes them '
    '(columns are independent); rotMatOfQuat and the norms hold for any number of columns'])
M = 'hexrd.core.rotations:'
OV = deps.OVERRIDES


def qarr(v, name, n):
    a = v.reals(name, (4, n))
    return a, [[a[k, j] for k in range(4)] for j in range(n)]


def usamp(*qs):
    """sampler of unit columns"""
    def s(rng):
        env = {}
        for q in qs:
            x = [rng.gauss(0, 1) for _ in q]
            m = sum(y * y for y in x) ** .5
            env.update({t.args[0]: y / m for t, y in zip(q, x)})
        return env
    return s


def rels(*qs):
    return [r for q in qs for r in unit_rel(q)]


@check.obligations('quatProductMatrix: left and right operators of any two quaternions', [M + 'quatProductMatrix'])
def _(v):
    f = v.lift(M + 'quatProductMatrix')
    a, A = qarr(v, 'a', 3)
    b, B = qarr(v, 'b', 3)
    for o in v.run(lambda: (f(a, mult='right'), f(b, mult='left'))):
        r, l = o.value
        v.require('shape', r.shape == (3, 4, 4) and l.shape == (3, 4, 4), f'{r.shape} {l.shape}')
        for j in range(3):
            want = deps.qmul(B[j], A[j])
            for i in range(4):
                v.prove(f'right {j}{i}', o.pc, eq(dot([r[j, i, k] for k in range(4)], B[j]), want[i]))
                v.prove(f'left {j}{i}', o.pc, eq(dot([l[j, i, k] for k in range(4)], A[j]), want[i]))
    bad = v.reals('z', (3, 2))
    for o in v.run(lambda: f(bad), allow_exc=True):
        v.require('wrong leading size is rejected', isinstance(o.exc, RuntimeError), repr(o.exc))


@check.obligations('fixQuat: unit, non-negative scalar part, same line', [M + 'fixQuat', 'hexrd.core.matrixutil:unitVector'])
def _(v):
    f = v.lift(M + 'fixQuat')
    for shp in ((4, 2), (2, 4, 2)):
        a = v.reals('q', shp)
        idx = [(None, j) for j in range(2)] if len(shp) == 2 else [(i, j) for i in range(2) for j in range(2)]
        for o in v.run(lambda: f(a)):
            v.require(f'shape {shp}', o.value.shape == shp, str(o.value.shape))
            for i, j in idx:
                at = (lambda x, k: x[k, j]) if i is None else (lambda x, k: x[i, k, j])
                q = [at(a, k) for k in range(4)]
                p = [at(o.value, k) for k in range(4)]
                n2 = dot(q, q)
                hyp = o.pc + [lt(num(tm.Fraction(1, 10 ** 20)), n2)]
                v.prove(f'unit {shp}{i}{j}', hyp, eq(dot(p, p), num(1)))
                v.prove(f'q0>=0 {shp}{i}{j}', hyp, le(num(0), p[0]))
                for k in range(4):
                    v.prove(f'parallel {shp}{i}{j}{k}', hyp,
                            or_(eq(p[k] * tm.sqrt(n2), q[k]), eq(p[k] * tm.sqrt(n2), -q[k])))
                for k in range(1, 4):
                    v.prove(f'one sign {shp}{i}{j}{k}', hyp, eq(p[0] * q[k], p[k] * q[0]))


@check.obligations('invertQuat: product with the inverse is the identity rotation', [M + 'invertQuat'])
def _(v):
    f = v.lift(M + 'invertQuat')
    a, A = qarr(v, 'q', 3)
    for o in v.run(lambda: f(a)):
        for j in range(3):
            p = [o.value[k, j] for k in range(4)]
            hyp = o.pc + [unit_hyp(A[j])]
            kw = dict(relations=unit_rel(A[j]), sampler=usamp(A[j]))
            e = deps.qmul(p, A[j])
            v.prove(f'unit {j}', hyp, eq(dot(p, p), num(1)), **kw)
            v.prove(f'q0>=0 {j}', hyp, le(num(0), p[0]), **kw)
            v.prove(f'product scalar {j}', hyp, eq(e[0] * e[0], num(1)), **kw)
            for k in range(1, 4):
                v.prove(f'product vector {j}{k}', hyp, eq(e[k], num(0)), **kw)


@check.obligations('quatProduct: composition of the rotations', [M + 'quatProduct', M + '_quat_to_scipy_rotation', M + '_scipy_rotation_to_quat'])
def _(v):
    f = v.lift(M + 'quatProduct', overrides=OV)
    a, A = qarr(v, 'a', 2)
    b, B = qarr(v, 'b', 2)
    for o in v.run(lambda: f(a, b)):
        v.require('shape', o.value.shape == (4, 2), str(o.value.shape))
        for j in range(2):
            p = [o.value[k, j] for k in range(4)]
            hyp = o.pc + [unit_hyp(A[j]), unit_hyp(B[j])]
            kw = dict(relations=rels(A[j], B[j]), sampler=usamp(A[j], B[j]))
            v.prove(f'unit {j}', hyp, eq(dot(p, p), num(1)), **kw)
            v.prove(f'q0>=0 {j}', hyp, le(num(0), p[0]), **kw)
            w = deps.qmul(B[j], A[j])   # R(qp) = R(q2) R(q1)
            for i in range(4):
                for k in range(i, 4):
                    v.prove(f'same rotation {j}{i}{k}', hyp, eq(p[i] * p[k], w[i] * w[k]), **kw)
    # lemma: the matrix of a product is the product of the matrices
    p, q = A[0], B[0]
    W = matmul(deps.qmat(p), deps.qmat(q))
    G = deps.qmat(deps.qmul(p, q))
    for i in range(3):
        for k in range(3):
            v.prove(f'lemma R(pq)=R(p)R(q) {i}{k}', [], eq(W[i][k], G[i][k]))


def orbit(qs1, q2, csym, ssym):
    """all s * q2 * c * q1^-1"""
    inv = [qs1[0]] + [-x for x in qs1[1:]]
    return [deps.qmul(deps.qmul(deps.qmul(s, q2), c), inv) for c in csym for s in ssym]


@check.obligations('misorientation: maximal scalar part over the symmetry orbit', [M + 'misorientation', M + 'invertQuat', M + 'fixQuat', M + 'arccosSafe'])
def _(v):
    # callee contract of fixQuat/invertQuat on unit quaternions (proved above)
    def fix(q):
        q = snp.asarray(q)
        s = snp.where(q[0] < 0, -1.0, 1.0)
        return q * s

    def inv(q):
        q = snp.asarray(q)
        q = snp.vstack([-q[0:1], q[1:]])
        return -q if q[0, 0] < 0 else q
    f = v.lift(M + 'misorientation', contracts={M + 'fixQuat': fix, M + 'invertQuat': inv, M + 'arccosSafe': lambda x: snp.arccos(x)})
    n = 2
    a, A = qarr(v, 'a', 1)
    b, B = qarr(v, 'b', n)
    for nc, ns in ((2, 2), (3, None), (None, None)):
        c, C = qarr(v, 'c', nc or 1)
        s, S = qarr(v, 's', ns or 1)
        ident = [num(1, 'R'), num(0, 'R'), num(0, 'R'), num(0, 'R')]
        sym_ = None if nc is None else ((c,) if ns is None else (c, s))
        cs = [ident] if nc is None else C
        ss = [ident] if ns is None else S
        # the argmax is followed on every path (the orbit is small)
        for o in v.run(lambda: f(a, b, sym_)):
            ang, mis = o.value
            v.require(f'shapes {nc}{ns}', ang.shape == (n,) and mis.shape == (4, n), f'{ang.shape} {mis.shape}')
            for j in range(n):
                cand = orbit(A[0], B[j], cs, ss)
                m = [mis[k, j] for k in range(4)]
                ab = [tm.absv(q[0]) for q in cand]
                mx = ab[0]
                for x in ab[1:]:
                    mx = tm.maxv(mx, x)
                v.prove(f'angle {nc}{ns}{j}', o.pc, eq(ang[j], 2 * tm.acos(mx)))
                v.prove(f'scalar part is the maximum {nc}{ns}{j}', o.pc, eq(m[0], mx))
                for q in cand:
                    pass
                alt = or_(*[and_(*[eq(x, y) for x, y in zip(m, q)]) for q in cand] +
                          [and_(*[eq(x, -y) for x, y in zip(m, q)]) for q in cand])
                v.prove(f'representative lies in the orbit {nc}{ns}{j}', o.pc, alt)


@check.obligations('toFundamentalRegion: orbit member of maximal scalar part', [M + 'toFundamentalRegion'])
def _(v):
    def fix(q):
        q = snp.asarray(q)
        s = snp.where(q[0] < 0, -1.0, 1.0)
        return q * s
    f = v.lift(M + 'toFundamentalRegion', contracts={M + 'fixQuat': fix})
    c, C = qarr(v, 'c', 3)
    for shp in ((4, 2), (2, 4, 1)):
        b = v.reals('b', shp)
        for o in v.run(lambda: f(b, crysSym=c)):
            v.require(f'shape {shp}', o.value.shape == shp, str(o.value.shape))
            for j in range(2):
                q = [b[k, j] if len(shp) == 2 else b[j, k, 0] for k in range(4)]
                m = [o.value[k, j] if len(shp) == 2 else o.value[j, k, 0] for k in range(4)]
                cand = [deps.qmul(q, x) for x in C]
                for i, x in enumerate(cand):
                    v.prove(f'maximal {shp}{j}{i}', o.pc, le(tm.absv(x[0]), m[0]))
                alt = or_(*[and_(*[eq(x, y) for x, y in zip(m, w)]) for w in cand] +
                          [and_(*[eq(x, -y) for x, y in zip(m, w)]) for w in cand])
                v.prove(f'orbit member {shp}{j}', o.pc, alt)


@check.obligations('applySym: images of the vector', [M + 'applySym'])
def _(v):
    f = v.lift(M + 'applySym', contracts={'hexrd.core.matrixutil:findDuplicateVectors':
                                          lambda x, tol=None, equivPM=False: (None, list(range(x.shape[1])))})
    c, C = qarr(v, 'c', 3)
    x = v.reals('x', (3, 1))
    X = [x[k, 0] for k in range(3)]
    for cs in (False, True):
        for o in v.run(lambda: f(x, c, csFlag=cs)):
            v.require(f'shape {cs}', o.value.shape == (3, 6 if cs else 3), str(o.value.shape))
            for j in range(3):
                W = deps.qmat(C[j])
                for i in range(3):
                    v.prove(f'image {cs}{j}{i}', o.pc, eq(o.value[i, j], dot(W[i], X)))
                    if cs:
                        v.prove(f'inverse {cs}{j}{i}', o.pc, eq(o.value[i, j + 3], -dot(W[i], X)))


# ------------------------------------------------------------------ executable contract
LAUE = ['ci', 'c2h', 'd2h', 'c4h', 'd4h', 'c3i', 's6', 'd3d', 'c6h', 'd6h', 'th', 'oh']


def groups():
    from hexrd.core import rotations as r
    out = []
    for g in ['ci', 'c2h', 'd2h', 'c4h', 'd4h', 'c3i', 'd3d', 'c6h', 'd6h', 'th', 'oh']:
        out.append((g, r.quatOfLaueGroup(g)))
    return out


def runits(rng, n):
    q = rand_unit(rng, 4, n)
    k = rng.integers(0, 5)
    if k == 0:
        q[:, 0] = np.eye(4)[rng.integers(0, 4)]
    if k == 1:
        q[0, 0] = 0
        q[:, 0] /= np.linalg.norm(q[:, 0])
    if k == 2:
        q[:, -1] = q[:, 0]
    return q


@check.runtime('product, inverse, fix', n=150)
def _(t):
    from hexrd.core import rotations as r
    rng = t.rng
    for k in t.cases():
        n = int(rng.integers(1, 6))
        a, b = runits(rng, n), runits(rng, n)
        p = r.quatProduct(a, b)
        t.close((p * p).sum(0), 1., 'product is a unit quaternion', a=a, b=b)
        t.expect((p[0] >= 0).all(), 'product q0>=0', a=a, b=b)
        t.close([nqmat(p[:, i]) for i in range(n)], [nqmat(b[:, i]) @ nqmat(a[:, i]) for i in range(n)],
                'product composes rotations', a=a, b=b, atol=1e-9)
        inv = r.invertQuat(a)
        t.close([nqmat(inv[:, i]) for i in range(n)], [nqmat(a[:, i]).T for i in range(n)], 'inverse', a=a)
        t.expect((inv[0] >= 0).all(), 'inverse q0>=0', a=a)
        s = rng.uniform(0.1, 5, n) * rng.choice([-1, 1], n)
        x = a * s
        keep = x.copy()
        f = r.fixQuat(x)
        t.close(x, keep, 'fixQuat leaves its input alone', a=a)
        t.close((f * f).sum(0), 1., 'fixQuat unit', a=a, s=s)
        t.expect((f[0] >= 0).all(), 'fixQuat q0>=0', a=a, s=s)
        t.close(np.abs((f * a).sum(0)), 1., 'fixQuat same rotation', a=a, s=s)
        x3 = rng.normal(size=(2, 4, 3))
        f3 = r.fixQuat(x3)
        t.close(f3, np.array([r.fixQuat(y) for y in x3]), 'fixQuat 3-d', x3=x3)
        for mult in ('right', 'left'):
            m = r.quatProductMatrix(a, mult=mult)
            for i in range(n):
                w = nqmul(b[:, i], a[:, i]) if mult == 'right' else nqmul(a[:, i], b[:, i])
                t.close(m[i] @ b[:, i], w, 'quatProductMatrix ' + mult, a=a, b=b)


@check.runtime('misorientation and fundamental region', n=60)
def _(t):
    from hexrd.core import rotations as r
    rng = t.rng
    gs = groups()
    for k in t.cases():
        name, g = gs[k % len(gs)]
        sname, sg = gs[int(rng.integers(0, 4))]
        n = int(rng.integers(1, 5))
        a, b = runits(rng, 1), runits(rng, n)
        m = g.shape[1]
        if k % 3 == 0:      # equivalents of the first
            b[:, 0] = nqmul(a[:, 0], g[:, rng.integers(0, m)])
        for sym_, cs, ss in ((None, np.eye(4)[:, :1], np.eye(4)[:, :1]), ((g,), g, np.eye(4)[:, :1]), ((g, sg), g, sg)):
            ang, mis = r.misorientation(a, b, sym_)
            t.expect(ang.shape == (n,) and mis.shape == (4, n), 'one result per input', a=a, b=b, group=name)
            ai = a[:, 0] * [1, -1, -1, -1]
            for i in range(n):
                orb = np.array([nqmul(nqmul(nqmul(s, b[:, i]), c), ai) for c in cs.T for s in ss.T])
                mx = min(np.abs(orb[:, 0]).max(), 1.)
                t.close(ang[i], 2 * np.arccos(mx), 'smallest angle over the symmetry orbit', a=a, b=b, group=name, sample=sname, atol=3e-7)
                t.close(mis[0, i], mx, 'representative has the smallest angle', a=a, b=b, group=name, atol=1e-9)
                t.expect(np.abs(orb @ mis[:, i]).max() > 1 - 1e-9, 'representative is in the orbit', a=a, b=b, group=name)
        # invariance under symmetry
        c = g[:, [int(rng.integers(0, m))]]
        b2 = np.array([nqmul(b[:, i], c[:, 0]) for i in range(n)]).T
        t.close(r.misorientation(a, b2, (g,))[0], r.misorientation(a, b, (g,))[0], 'angle invariant under the group', a=a, b=b, group=name, atol=3e-7)
        for cs in (g, name):
            f = r.toFundamentalRegion(b, crysSym=cs)
            t.expect(f.shape == (4, n), 'shape')
            for i in range(n):
                orb = np.array([nqmul(b[:, i], c) for c in g.T])
                t.close(f[0, i], np.abs(orb[:, 0]).max(), 'fundamental region: largest scalar part', b=b, group=name)
                t.expect(np.abs(orb @ f[:, i]).max() > 1 - 1e-9, 'fundamental region: orbit member', b=b, group=name)
        b3 = np.array([b, r.fixQuat(rng.normal(size=(4, n)))])
        t.close(r.toFundamentalRegion(b3, crysSym=g), np.array([r.toFundamentalRegion(x, crysSym=g) for x in b3]), '3-d input', b=b3, group=name)
        # symmetric images of a vector
        v = rng.choice([np.array([1., 0, 0]), np.array([1., 1, 0]), np.array([1., 1, 1]), rng.normal(size=3)]).reshape(3, 1)
        for cf in (False, True):
            for cull in (False, True):
                im = r.applySym(v, g, csFlag=cf, cullPM=cull)
                al = np.hstack([nqmat(q) @ v for q in g.T] + ([-nqmat(q) @ v for q in g.T] if cf else []))
                d = np.abs(im[:, :, None] - al[:, None, :]).max(0)
                t.expect((d.min(1) < 1e-6).all(), 'image of the vector', v=v, group=name, cs=cf, cull=cull)
                d2 = np.minimum(d, np.abs(im[:, :, None] + al[:, None, :]).max(0)) if cull else d
                t.expect((d2.min(0) < 1e-6).all(), 'every image is represented', v=v, group=name, cs=cf, cull=cull)
                dd = np.abs(im[:, :, None] - im[:, None, :]).max(0)
                if cull:
                    dd = np.minimum(dd, np.abs(im[:, :, None] + im[:, None, :]).max(0))
                t.expect((dd + 10 * np.eye(len(dd)) > 1e-7).all(), 'no duplicate image', v=v, group=name, cs=cf, cull=cull)


@check.runtime('fibers and averages', n=25)
def _(t):
    from hexrd.core import rotations as r
    rng = t.rng
    gs = groups()
    for k in t.cases():
        c, s = rng.normal(size=3), rng.normal(size=3)
        B = np.eye(3) if k % 2 else np.diag(rng.uniform(.5, 2, 3)) @ nrot(rand_rot(rng))
        name, g = gs[k % len(gs)]
        ch = B @ c / np.linalg.norm(B @ c)
        sh = s / np.linalg.norm(s)
        if k % 5 == 0:
            s = -(B @ c)
            sh = -ch
        f = r.discreteFiber(c, s, B=B, ndiv=12)[0]
        t.expect(f.shape == (4, 12), 'fiber size', c=c, s=s)
        t.close([nqmat(f[:, i]) @ ch for i in range(12)], np.tile(sh, (12, 1)), 'fiber orientations take c to s', c=c, s=s, B=B, atol=1e-7)
        i, j = 0, int(rng.integers(1, 12))
        t.close(np.trace(nqmat(f[:, i]) @ nqmat(f[:, j]).T), 1 + 2 * np.cos(2 * np.pi * j / 12), 'fiber spacing', c=c, s=s, atol=1e-7)
        fs = r.discreteFiber(c, s, B=B, ndiv=12, csym=g)[0]
        for cs in (False, True):
            n = int(rng.integers(1, 4))
            q = runits(rng, n)
            d = r.distanceToFiber(c.reshape(3, 1), s, q, g, centrosymmetry=cs, bmatrix=B)
            im = np.hstack([nqmat(x) @ ch[:, None] for x in g.T])
            if cs:
                im = np.hstack([im, -im])
            want = [np.arccos(np.clip((sh @ nqmat(q[:, i]) @ im).max(), -1, 1)) for i in range(n)]
            t.close(np.ravel(d), want, 'distance to fiber', c=c, s=s, q=q, group=name, cs=cs, atol=1e-6)
        t.expect((r.distanceToFiber(c.reshape(3, 1), s, fs, g, bmatrix=B) < 1e-5).all(), 'reduced fiber has zero distance', c=c, s=s, group=name)
        # averages
        q0 = r.toFundamentalRegion(rand_unit(rng, 4, 1), crysSym=g)
        e = rand_unit(rng, 3) * 0.02
        pair = np.hstack([r.quatProduct(q0, r.quatOfExpMap(e).reshape(4, 1)), r.quatProduct(q0, r.quatOfExpMap(-e).reshape(4, 1))])
        av = np.reshape(r.quatAverageCluster(pair, g), (4, 1))
        t.expect(r.misorientation(q0, av, (g,))[0][0] < 1e-5, 'average of a symmetric pair', q0=q0, e=e, group=name)
        trip = np.hstack([pair, q0])
        av = np.reshape(r.quatAverageCluster(trip, g), (4, 1))
        t.expect(r.misorientation(q0, av, (g,))[0][0] < 1e-5, 'average of a symmetric triple', q0=q0, e=e, group=name)
        eq_ = np.array([nqmul(trip[:, i], g[:, rng.integers(0, g.shape[1])]) for i in range(3)]).T
        av = np.reshape(r.quatAverageCluster(eq_, g), (4, 1))
        t.expect(r.misorientation(q0, av, (g,))[0][0] < 1e-5, 'average does not depend on the equivalents given', q0=q0, e=e, group=name)
