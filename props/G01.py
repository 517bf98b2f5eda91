from .common import *
from .geo import *
import numpy as np

check = Check('G01', level='proof', assumptions=CASSUME + ['C++ kernels (cpp_sublibrary: anglesToGVec, anglesToDVec, gvecToDetectorXY) are outside the front end: bounded executable contracts only'])
X = 'hexrd.core.transforms.xfcapi:'
CG = 'transforms_c_api.'
CP = 'transforms(cpp).'


@check.runtime('angles to lattice and diffraction vectors in lab, sample and crystal frame', [X + 'angles_to_gvec', X + 'angles_to_dvec', CP + 'anglesToGVec', CP + 'anglesToDVec'], n=250)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    for k in t.cases():
        n = int(t.rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17]))
        two = k % 4 == 0
        ang = np.array([t.rng.uniform(0, np.pi, n), t.rng.uniform(-np.pi, np.pi, n), t.rng.uniform(-np.pi, np.pi, n)]).T
        if k % 7 == 0:
            ang[:, 0] = t.rng.choice([0., np.pi, np.pi / 2], n)
        b, e = rand_beam(t.rng)
        chi = t.rng.choice([0., t.rng.normal() * .3])
        Rc = nrot(rand_rot(t.rng))
        kw = {}
        if k % 3:
            kw.update(beam_vec=b, eta_vec=e)
        else:
            b, e = np.array([0., 0, -1]), np.array([1., 0, 0])
        if k % 2:
            kw.update(chi=chi)
        else:
            chi = 0.
        if k % 5:
            kw.update(rmat_c=Rc)
        else:
            Rc = np.eye(3)
        RB = beam_frame(b, e)
        a = ang[:, :2] if two else ang
        keep = a.copy()
        d = dict(angs=a, beam=b, eta=e, chi=chi, rmat_c=Rc)
        for f, g in ((xf.angles_to_gvec, gvec), (xf.angles_to_dvec, dvec)):
            r = f(a, **kw)
            want = np.array([Rc.T @ sample(chi, 0. if two else x[2]).T @ g(x[0], x[1], RB) for x in ang])
            t.close(r, want, f.__name__, atol=1e-12, **d)
            t.expect((a == keep).all(), 'input modified', **d)
        one = xf.angles_to_gvec(a[0], **kw)
        t.expect(one.shape == (3,), 'a single triplet gives a single vector', **d)
        t.close(one, xf.angles_to_gvec(a, **kw)[0], 'single triplet', atol=1e-12, **d)


@check.runtime('reflections to detector coordinates: the diffracted ray meets the detector plane, nan when it does not', [
    X + 'gvec_to_xy', CG + 'gvecToDetectorXY', CG + 'gvecToDetectorXYArray'], n=200)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    for k in t.cases():
        n = int(t.rng.choice([1, 2, 3, 5, 11])) if k % 8 else int(t.rng.choice([127, 128, 129, 255, 256, 257, 300]))
        b, e = rand_beam(t.rng)
        Rd, td, _ = rand_detector(t.rng)
        Rc = nrot(rand_rot(t.rng))
        ts, tc = t.rng.normal(size=3) * t.rng.choice([0, 5]), t.rng.normal(size=3) * t.rng.choice([0, 2])
        chi = t.rng.normal() * .2
        many = k % 2 == 0
        ome = t.rng.uniform(-np.pi, np.pi, n)
        Rs = np.array([sample(chi, o) for o in ome]) if many else sample(chi, ome[0])
        G = rand_unit(t.rng, 3, n).T
        if k % 3:       # reflections diffracting forward
            tth = t.rng.uniform(0.01, 1.2, n)
            RB = beam_frame(b, e)
            G = np.array([Rc.T @ (Rs[i] if many else Rs).T @ gvec(tth[i], t.rng.uniform(-np.pi, np.pi), RB) for i in range(n)])
        scale = t.rng.choice([1., .3, 40.])
        kw = dict(beam_vec=b * scale) if k % 5 else {}
        bb = b if k % 5 else np.array([0., 0, -1])
        args = (G, Rd, Rs, Rc, td, ts, tc)
        keep = [x.copy() for x in args]
        r = xf.gvec_to_xy(*args, **kw)
        t.expect(r.shape == (n, 2), 'shape')
        t.expect(all((x == y).all() for x, y in zip(args, keep)), 'input modified')
        for i in (range(n) if n < 20 else list(t.rng.integers(0, n, 8)) + [0, n - 1, min(n - 1, 127), min(n - 1, 128)]):
            R = Rs[i] if many else Rs
            g = R @ Rc @ G[i]
            d = bb - 2 * (g @ bb) * g
            o = ts + R @ tc
            w = hit(o, d, Rd, td)
            if abs(Rd[:, 2] @ d) < 1e-6:
                continue
            t.close(r[i], w, 'diffracted ray meets the detector', rtol=1e-7, atol=1e-6, gvec=G[i], rmat_d=Rd, rmat_s=R, rmat_c=Rc, tvec_d=td, tvec_s=ts, tvec_c=tc, beam=bb, index=int(i), n=n)
        if k % 4 == 0:
            B = t.rng.normal(size=(3, 3)) + 2 * np.eye(3)
            V = np.eye(3) + t.rng.normal(size=(3, 3)) * .01
            V = (V + V.T) / 2
            gb = (B @ G.T).T
            gb /= np.linalg.norm(gb, axis=1)[:, None]
            t.close(xf.gvec_to_xy(G, *args[1:], bmat=B, **kw), xf.gvec_to_xy(gb, *args[1:], **kw), 'indices given with a reciprocal basis', rtol=1e-6, atol=1e-4, gvec=G, bmat=B)
            gv = (Rc.T @ V @ Rc @ G.T).T
            gv /= np.linalg.norm(gv, axis=1)[:, None]
            t.close(xf.gvec_to_xy(G, *args[1:], vmat_inv=V, **kw), xf.gvec_to_xy(gv, *args[1:], **kw), 'stretched crystal', rtol=1e-6, atol=1e-4, gvec=G, vmat_inv=V)
        one = xf.gvec_to_xy(G[0], Rd, Rs[0] if many else Rs, Rc, td, ts, tc, **kw)
        t.expect(one.shape == (2,), 'single reflection')
        t.close(one, r[0], 'single reflection', rtol=1e-9, atol=1e-7)


@check.runtime('detector coordinates to angles and lattice vectors: the ray from the sample through the pixel', [
    X + 'xy_to_gvec', CG + 'detectorXYToGvec'], n=250)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    for k in t.cases():
        n = int(t.rng.integers(1, 7))
        b, e = rand_beam(t.rng)
        RB = beam_frame(b, e)
        Rd, td, _ = rand_detector(t.rng)
        Rs = sample(t.rng.normal() * .2, t.rng.uniform(-np.pi, np.pi))
        ts, tc = t.rng.normal(size=3) * t.rng.choice([0, 5]), t.rng.normal(size=3) * t.rng.choice([0, 2])
        xy = t.rng.normal(size=(n, 2)) * 150
        kw = dict(rmat_b=RB) if k % 4 else {}
        RBu = RB if k % 4 else np.eye(3)
        keep = xy.copy()
        (tth, eta), g = xf.xy_to_gvec(xy, Rd, Rs, td, ts, tc, **kw)
        t.expect((xy == keep).all(), 'input modified')
        d = dict(xy=xy, rmat_d=Rd, rmat_s=Rs, tvec_d=td, tvec_s=ts, tvec_c=tc, rmat_b=RBu)
        for i in range(n):
            p = td + Rd @ np.r_[xy[i], 0] - ts - Rs @ tc
            w = angles_of(p, RBu)
            t.close(tth[i], w[0], 'two-theta', atol=1e-7, **d)
            if np.sin(w[0]) > 1e-3:
                t.expect(wrapped(eta[i], w[1]) < 1e-7, 'azimuth', got=eta[i], want=w[1], **d)
                t.close(g[i], gvec(w[0], w[1], RBu), 'lattice vector bisects beam and ray', atol=1e-6, **d)
        # back to the same detector point
        G = np.array([Rs.T @ x for x in g])
        back = xf.gvec_to_xy(G, Rd, Rs, np.eye(3), td, ts, tc, beam_vec=-RBu[:, 2])
        for i in range(n):
            p = td + Rd @ np.r_[xy[i], 0] - ts - Rs @ tc
            w = angles_of(p, RBu)
            if np.sin(w[0]) > 1e-2 and abs(Rd[:, 2] @ p) > 1e-2 * np.linalg.norm(p):
                t.close(back[i], xy[i], 'back to the same detector point', rtol=1e-6, atol=1e-5, **d)


@check.runtime('angles on the detector through a distortion', [X + 'xy_to_gvec'], n=20)
def _(t):
    from hexrd.core.transforms import xfcapi as xf

    class D:
        def apply_inverse(self, xy):
            return np.asarray(xy) * 1.01 + 3.
    for k in t.cases():
        Rd, td, _ = rand_detector(t.rng)
        xy = t.rng.normal(size=(3, 2)) * 90
        z = np.zeros(3)
        a = xf.xy_to_gvec(xy, Rd, np.eye(3), td, z, z, distortion=D())
        w = xf.xy_to_gvec(xy * 1.01 + 3., Rd, np.eye(3), td, z, z)
        t.close(np.array(a[0]), np.array(w[0]), 'angles of the undistorted point')
        t.close(a[1], w[1], 'lattice vectors of the undistorted point')


def spec_hit(g, Rd, Rs, Rc, td, ts, tc, b):
    """-> (parameter, x, y, denominator) of the ray from the crystal along the diffracted beam"""
    gl = [dot(r, [dot(q, g) for q in rows(Rc)]) for r in Rs]
    bg = dot(b, gl)
    d = [b[i] - 2 * bg * gl[i] for i in range(3)]
    o = [ts[i] + dot(Rs[i], tc) for i in range(3)]
    col = [[Rd[i, c] for i in range(3)] for c in range(3)]
    den = dot(col[2], d)
    u = dot(col[2], [td[i] - o[i] for i in range(3)]) / den
    p = [o[i] + u * d[i] - td[i] for i in range(3)]
    return u, dot(col[0], p), dot(col[1], p), den


def rays(v, beam, many):
    f, = clift(v, 'gvec_to_xy')
    n, k = v.dim('n'), sym('k', 'I')
    hy = [le(num(1, 'I'), n)]
    G = v.array('g', (n, 3))
    Rd, Rc = v.reals('d', (3, 3)), v.reals('c', (3, 3))
    td, ts, tc = (v.reals(x, (3,)) for x in ('td', 'ts', 'tc'))
    Rs = v.array('S', (n, 3, 3)) if many else v.reals('S', (3, 3))
    if beam:
        b = v.reals('b', (3,))
        nb = tm.sqrt(dot(b, b))
        bh = [x / nb for x in b]
        hy += [lt(L(EPS), nb), le(L(EPS), tm.absv(-bh[2] - 1))]
    else:
        b, bh = None, [num(0), num(0), num(-1)]
    hk = hy + [le(num(0, 'I'), k), lt(k, n)]
    last = [[eq(k, n - num(1, 'I')), lt(k, n - num(1, 'I'))]]
    for o in v.run(lambda: f(G, Rd, Rs, Rc, td, ts, tc, beam_vec=b), hy):
        v.prove('one row per reflection', hy + o.pc, eq(L(o.value.shape[0]), n))
        S = [[(Rs.el((k, num(i, 'I'), num(j, 'I'))) if many else Rs[i, j]) for j in range(3)] for i in range(3)]
        u, x, y, den = spec_hit([at2(G, k, c) for c in range(3)], Rd, S, Rc, td, ts, tc, bh)
        h = hk + o.pc + [not_(eq(den, num(0)))]
        for c, w in ((0, x), (1, y)):
            r = at2(o.value, k, c)
            v.prove(f'component {c}: meets the plane ahead', h + [lt(num(0), u)], eq(r, w), split=last)
            v.prove(f'component {c}: nan when the plane is not ahead', h + [le(u, num(0))], tm.isnan(r), split=last)
            v.prove(f'component {c}: not nan when it is', h + [lt(num(0), u)], not_(tm.isnan(r)), split=last)


for _b in (0, 1):
    for _m in (0, 1):
        check.obligations(f'diffracted rays meet the detector: {"any beam" if _b else "default beam"}, {"a sample frame per reflection" if _m else "one sample frame"}, any number of reflections',
                          [X + 'gvec_to_xy', CG + ('gvecToDetectorXYArray' if _m else 'gvecToDetectorXY')], thorough=bool(_b and _m))(lambda v, b=_b, m=_m: rays(v, b, m))


def points(v, given):
    f, = clift(v, 'xy_to_gvec')
    n, k = v.dim('n'), sym('k', 'I')
    xy = v.array('xy', (n, 2))
    Rd, Rs = v.reals('d', (3, 3)), v.reals('S', (3, 3))
    td, ts, tc = (v.reals(x, (3,)) for x in ('td', 'ts', 'tc'))
    if True:
        RB = v.reals('B', (3, 3)) if given else None
        b = [-RB[i, 2] for i in range(3)] if given else [num(0), num(0), num(-1)]
        e = [RB[i, 0] for i in range(3)] if given else [num(1), num(0), num(0)]
        nb = tm.sqrt(dot(b, b))
        y = cross(e, b)
        ny = tm.sqrt(dot(y, y))
        hy = [le(num(1, 'I'), n)] + ([lt(L(EPS), nb), lt(L(EPS), ny)] if given else [])
        bh = [x / nb for x in b]
        yh = [x / ny for x in y]
        xh = cross(yh, [-x for x in bh])
        t = [td[i] - ts[i] - dot(Rs[i], tc) + Rd[i, 0] * at2(xy, k, 0) + Rd[i, 1] * at2(xy, k, 1) for i in range(3)]
        tt = dot(t, t)
        d = [x / tm.sqrt(tt) for x in t]
        hk = hy + [le(num(0, 'I'), k), lt(k, n), lt(L(EPS), tt)]
        w = 'any beam frame' if given else 'default frame'
        for o in v.run(lambda: f(xy, Rd, Rs, td, ts, tc, rmat_b=RB), hy):
            (tth, eta), g = o.value
            v.prove(f'{w}: one entry per point', hy + o.pc, and_(eq(L(tth.shape[0]), n), eq(L(eta.shape[0]), n), eq(L(g.shape[0]), n)))
            c = dot(bh, d)
            v.prove(f'{w}: two-theta from the beam to the ray', hk + o.pc, eq(tth.el((k,)), tm.acos(ite(lt(num(1), c), num(1), ite(lt(c, num(-1)), num(-1), c)))))
            v.prove(f'{w}: azimuth in the beam frame', hk + o.pc, eq(eta.el((k,)), tm.atan2(dot(yh, d), dot(xh, d))))
            p = cross(bh, d)
            s = tm.sqrt(dot(p, p))
            R = rodrigues([x / s for x in p], (PI - tth.el((k,))) / 2)
            T, D, B = ([sym(f'{x}{i}!', 'R') for i in range(3)] for x in 'TDB')
            S, Z = sym('S!', 'R'), sym('Z!', 'R')
            steps = [([(t[i], T[i]) for i in range(3)], [], []), ([(d[i], D[i]) for i in range(3)], [], unit_rel(D))]
            if given:
                steps.append(([(bh[i], B[i]) for i in range(3)], [], unit_rel(B)))
            steps += [([(s, S)], [], []), ([((PI - tth.el((k,))) / 2, Z)], [], [])]
            for c in range(3):
                v.prove(f'{w}: lattice vector by turning the ray {c}', hk + o.pc + [lt(num(0), s)], eq(at2(g, k, c), dot(R[c], d)), generalise=steps)


for _b in (0, 1):
    check.obligations(f'detector points to angles: any number of points, {"any beam frame" if _b else "default frame"}',
                      [X + 'xy_to_gvec', CG + 'detectorXYToGvec'])(lambda v, b=_b: points(v, b))


@check.obligations('a ray turned towards the beam bisects the diffracted and the reversed beam', [X + 'xy_to_gvec'])
def _(v):
    b, d = v.reals('b', (3,)), v.reals('d', (3,))
    h, k, th = v.reals('h'), v.reals('k'), v.reals('th')
    p = cross(b, d)
    rel = unit_rel(b) + unit_rel(d)
    v.prove('sine of the angle to the beam', [unit_hyp(b), unit_hyp(d)], eq(dot(p, p), 1 - dot(b, d) * dot(b, d)), relations=rel)
    c = v.reals('c')
    v.prove('cosine within the unit interval: no clamping', [eq(dot(p, p), 1 - c * c)], and_(le(c, num(1)), le(num(-1), c)))
    for c, w in ((tm.cos((PI - th) / 2), tm.sin(th / 2)), (tm.sin((PI - th) / 2), tm.cos(th / 2)),
                 (tm.cos(th), 1 - 2 * tm.sin(th / 2) * tm.sin(th / 2)), (tm.sin(th), 2 * tm.sin(th / 2) * tm.cos(th / 2))):
        v.prove('half angles ' + tm.show(c), [], eq(c, w))
    # cos(two-theta) = b.d = 1 - 2 h^2, sin(two-theta) = |b x d| = 2 h k
    hy = [eq(dot(b, b), num(1)), eq(dot(d, d), num(1)), eq(dot(b, d), 1 - 2 * h * h), lt(num(0), h), lt(num(0), k)]
    q = cross(p, d)
    for i in range(3):
        v.prove(f'double product {i}', [], eq(q[i], d[i] * dot(b, d) - b[i] * dot(d, d)))
        v.prove(f'direction {i}', hy, eq(h * d[i] + k * (d[i] * (1 - 2 * h * h) - b[i]) / (2 * h * k), (d[i] - b[i]) / (2 * h)))
    v.prove('of unit length', [unit_hyp(b), unit_hyp(d), eq(dot(b, d), 1 - 2 * h * h)], eq(sum_([(d[i] - b[i]) * (d[i] - b[i]) for i in range(3)]), 4 * h * h), relations=rel)


@check.obligations('a beam frame of orthonormal columns is its own frame', [X + 'xy_to_gvec'])
def _(v):
    q = v.reals('q', (4,))
    w, x, y, z = q
    R = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    rel = unit_rel(q)
    col = [[R[i][j] for i in range(3)] for j in range(3)]
    b = [-c for c in col[2]]
    Y = cross(col[0], b)
    for i in range(3):
        v.prove(f'y axis {i}', [unit_hyp(q)], eq(Y[i], col[1][i]), relations=rel)
        v.prove(f'x axis {i}', [unit_hyp(q)], eq(cross(Y, [-c for c in b])[i], col[0][i]), relations=rel)
    v.prove('beam of unit length', [unit_hyp(q)], eq(dot(b, b), num(1)), relations=rel)
    v.prove('y axis of unit length', [unit_hyp(q)], eq(dot(Y, Y), num(1)), relations=rel)
