from .common import *
from .geo import *
import numpy as np

check = Check('G03', level='proof', assumptions=CASSUME + ['C++ kernels (cpp_sublibrary: makeOscillRotMat, make_rot_mat_of_exp_map, make_binary_rot_mat) are outside the front end: bounded executable contracts only'])
X = 'hexrd.core.transforms.xfcapi:'
C = 'transforms_c_api.'


@check.runtime('frame rotations: detector tilts, sample oscillation, beam frame, exponential map, half-turns', [
    X + 'make_detector_rmat', X + 'make_sample_rmat', X + 'make_oscill_rmat', X + 'make_beam_rmat', X + 'make_rmat_of_expmap', X + 'make_binary_rmat',
    C + 'makeDetectorRotMat', C + 'makeOscillRotMat', C + 'makeEtaFrameRotMat', 'transforms(cpp).makeOscillRotMat', 'transforms(cpp).make_rot_mat_of_exp_map'], n=300)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    for k in t.cases():
        a = t.rng.uniform(-np.pi, np.pi, 3) * t.rng.choice([0, 1, 1, 1, 1e-6], 3)
        t.close(xf.make_detector_rmat(a), rz_(a[2]) @ ry_(a[1]) @ rx_(a[0]), 'detector tilts', atol=1e-12, tilt=a)
        t.close(xf.make_detector_rmat(list(a)), rz_(a[2]) @ ry_(a[1]) @ rx_(a[0]), 'detector tilts given as a list', atol=1e-12, tilt=a)
        chi = a[0]
        t.close(xf.make_sample_rmat(chi, a[1]), sample(chi, a[1]), 'sample rotation', atol=1e-12, chi=chi, ome=a[1])
        om = t.rng.uniform(-7, 7, int(t.rng.integers(1, 10)))
        r = xf.make_sample_rmat(chi, om)
        t.expect(r.shape == (len(om), 3, 3), 'one matrix per rotation', ome=om)
        t.close(r, np.array([sample(chi, o) for o in om]), 'sample rotations', atol=1e-12, chi=chi, ome=om)
        t.close(xf.make_oscill_rmat([chi, a[1]]), sample(chi, a[1]), 'oscillation', atol=1e-12, chi=chi, ome=a[1])
        r = xf.make_oscill_rmat_array(chi, om)
        t.close(np.reshape(r, (-1, 3, 3)), np.array([sample(chi, o) for o in om]), 'oscillation array', atol=1e-12, chi=chi, ome=om)
        b, e = rand_beam(t.rng)
        s = t.rng.choice([1., 7., .01])
        R = xf.make_beam_rmat(b * s, e / s)
        t.close(R, beam_frame(b, e), 'beam frame', atol=1e-12, beam=b, eta=e)
        t.close(R.T @ R, np.eye(3), 'beam frame orthonormal', atol=1e-12, beam=b, eta=e)
        t.raises(RuntimeError, lambda: xf.make_beam_rmat(b, b * t.rng.choice([1, -2.])), 'collinear beam and eta are refused', beam=b) if k % 5 == 0 and b[2] == -1 else None
        t.raises(RuntimeError, lambda: xf.make_beam_rmat(b * 0, e), 'zero beam is refused')
        w = rand_rot(t.rng)
        t.close(xf.make_rmat_of_expmap(w), nrot(w), 'exponential map', atol=1e-9, expmap=w)
        u = rand_unit(t.rng, 3)
        t.close(xf.make_binary_rmat(u), 2 * np.outer(u, u) - np.eye(3), 'half-turn', atol=1e-12, axis=u)


@check.runtime('unit vectors', [X + 'unit_vector', X + 'makeGVector', C + 'unitRowVector', C + 'unitRowVectors'], n=200)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    for k in t.cases():
        n = int(t.rng.integers(1, 6))
        x = t.rng.normal(size=(n, int(t.rng.integers(1, 5)))) * t.rng.choice([1, 1e-5, 1e6, 0], (n, 1))
        keep = x.copy()
        r = xf.unit_vector(x)
        nr = np.sqrt((x * x).sum(1))
        w = np.where(nr[:, None] > 1e-15, x / np.where(nr > 1e-15, nr, 1)[:, None], x)
        t.close(r, w, 'rows', atol=1e-12, vec=x)
        t.expect((x == keep).all(), 'input modified')
        t.close(xf.unit_vector(x[0]), w[0], 'one vector', atol=1e-12, vec=x[0])
        B = t.rng.normal(size=(3, 3))
        h = t.rng.integers(-3, 4, size=(3, n))
        h[:, ~h.any(0)] = 1
        G = xf.makeGVector(h, B)
        t.expect(G.shape == (3, n), 'one column per reflection', hkl=h)
        t.close(np.sqrt((G ** 2).sum(0)), np.ones(n), 'unit length', hkl=h, bmat=B)
        t.close(np.cross(G.T, (B @ h).T), np.zeros((n, 3)), 'along B h', atol=1e-9, hkl=h, bmat=B)
        t.raises(ValueError, lambda: xf.makeGVector(np.zeros((2, 4)), B), 'wrong number of indices')
        t.raises(ValueError, lambda: xf.unit_vector(np.zeros((2, 2, 2))), 'three dimensions')


@check.runtime('rotation about an axis', [X + 'rotate_vecs_about_axis', C + 'rotate_vecs_about_axis'], n=250)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    for k in t.cases():
        n = int(t.rng.integers(1, 6))
        v = t.rng.normal(size=(3, n))
        many_ax = k % 2
        one_ang = (k // 2) % 2
        ax = t.rng.normal(size=(3, n if many_ax else 1)) * t.rng.choice([1, 3.])
        if k % 3 == 0:
            ax /= np.sqrt((ax ** 2).sum(0))
        ang = t.rng.uniform(-4, 4, 1 if one_ang else n)
        if one_ang and k % 8 == 0:
            ang = ang[0]
        d = dict(angle=ang, axis=ax, vecs=v)
        try:
            r = xf.rotate_vecs_about_axis(ang, ax, v)
        except ValueError as ex:
            # a length-one array with several vectors is refused by the kernel's dimension check
            t.expect(n > 1 and (one_ang or not many_ax), 'refused', error=str(ex), **d)
            continue
        A = np.broadcast_to(np.atleast_1d(ang), (n,))
        X_ = np.broadcast_to(ax, (3, n))
        want = np.array([nrot_big(X_[:, i], A[i]) @ v[:, i] for i in range(n)]).T
        t.close(r, want, 'rotated', atol=1e-11, **d)
    for k in t.cases(40):
        n = int(t.rng.integers(2, 5))
        v, ax, ang = t.rng.normal(size=(3, n)), t.rng.normal(size=3) * 2, t.rng.uniform(-3, 3)
        # scalar angle, one axis for all vectors (one-dimensional axis)
        r = xf.rotate_vecs_about_axis(ang, ax, v)
        t.close(r, nrot_big(ax, ang) @ v, 'one angle and one axis for all vectors', atol=1e-11, angle=ang, axis=ax, vecs=v)


def nrot_big(ax, a):
    u = ax / np.linalg.norm(ax)
    k = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * k @ k


@check.runtime('distance between orientations with symmetry', [X + 'quat_distance', C + 'quat_distance'], n=200)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    from hexrd.core import rotations as rot
    for k in t.cases():
        q1, q2 = rand_unit(t.rng, 4), rand_unit(t.rng, 4)
        S = rot.quatOfLaueGroup(['ci', 'c2h', 'd2h', 'c4h', 'd4h', 's6', 'd3d', 'c6h', 'd6h', 'th', 'oh'][k % 11])
        if k % 4 == 0:
            q2 = nqmul(q1, S[:, t.rng.integers(0, S.shape[1])]) * t.rng.choice([-1, 1])
        r = xf.quat_distance(q1, q2, S)
        want = min(2 * np.arccos(min(1, abs(q1 @ nqmul(q2, S[:, j])))) for j in range(S.shape[1]))
        t.close(r, want, 'smallest rotation angle over the symmetry group', atol=2e-7, q1=q1, q2=q2, nsym=S.shape[1])
        t.close(r, xf.quat_distance(q2, q1, S), 'symmetric', atol=2e-7, q1=q1, q2=q2)


@check.obligations('unit vectors for any number of rows', [X + 'unit_vector', C + 'unitRowVector', C + 'unitRowVectors'])
def _(v):
    f, = clift(v, 'unit_vector')
    n, k = v.dim('n'), sym('k', 'I')
    hy = [le(num(1, 'I'), n)]
    hk = hy + [le(num(0, 'I'), k), lt(k, n)]
    x = v.array('x', (n, 3))
    for o in v.run(lambda: f(x), hy):
        v.prove('one row per vector', hy + o.pc, eq(L(o.value.shape[0]), n))
        r = [at2(x, k, c) for c in range(3)]
        nn = tm.sqrt(dot(r, r))
        for c in range(3):
            v.prove(f'row {c}', hk + o.pc, eq(at2(o.value, k, c), ite(lt(L(EPS), nn), r[c] / nn, r[c])))
    y = v.reals('y', (3,))
    for o in v.run(lambda: f(y), []):
        nn = tm.sqrt(dot(y, y))
        for c in range(3):
            v.prove(f'one vector {c}', o.pc, eq(o.value[c], ite(lt(L(EPS), nn), y[c] / nn, y[c])))


@check.obligations('detector tilts, sample rotation and beam frame', [X + 'make_detector_rmat', X + 'make_oscill_rmat', X + 'make_oscill_rmat_array', X + 'make_beam_rmat',
                                                                     C + 'makeDetectorRotMat', C + 'makeOscillRotMat', C + 'makeEtaFrameRotMat'])
def _(v):
    det, osc, oscs, beam = clift(v, 'make_detector_rmat', 'make_oscill_rmat', 'make_oscill_rmat_array', 'make_beam_rmat')
    a = v.reals('a', (3,))
    for o in v.run(lambda: det(a), []):
        v.eq_arrays('tilts about fixed x, y, z', o.pc, o.value, snp.array(matmul(rz(a[2]), matmul(ry(a[1]), rx(a[0])))))
    chi, om = v.reals('chi'), v.reals('om')
    for o in v.run(lambda: osc([chi, om]), []):
        v.eq_arrays('sample rotation', o.pc, o.value, snp.array(matmul(rx(chi), ry(om))))
    n, k = v.dim('n'), sym('k', 'I')
    hy = [le(num(1, 'I'), n)]
    hk = hy + [le(num(0, 'I'), k), lt(k, n)]
    oms = v.array('oms', (n,))
    for o in v.run(lambda: oscs(chi, oms), hy):
        w = matmul(rx(chi), ry(oms.el((k,))))
        for i in range(3):
            for j in range(3):
                v.prove(f'sample rotations of any number of frames {i}{j}', hk + o.pc, eq(o.value.el((k, num(i, 'I'), num(j, 'I'))), w[i][j]))
    b, e = v.reals('b', (3,)), v.reals('e', (3,))
    bb, nb = dot(b, b), tm.sqrt(dot(b, b))
    y = cross(e, b)
    ny = tm.sqrt(dot(y, y))
    hy = [lt(L(EPS), nb), lt(L(EPS), ny)]
    for o in v.run(lambda: beam(b, e), hy, allow_exc=True):
        if o.exc is not None:
            v.prove('beam frame: not refused', hy + o.pc, FALSE)
            continue
        yh, zh = [x / ny for x in y], [-x / nb for x in b]
        xh = cross(yh, zh)
        v.eq_arrays('beam frame: z against the beam, y across beam and eta', hy + o.pc, o.value, snp.array(tr([xh, yh, zh])))
    for nm, h in (('beam', [le(nb, L(EPS))]), ('collinear', [lt(L(EPS), nb), le(ny, L(EPS))])):
        for o in v.run(lambda: beam(b, e), h, allow_exc=True):
            v.prove(f'{nm}: refused', h + o.pc, TRUE if isinstance(o.exc, RuntimeError) else FALSE)


@check.obligations('rotation about an axis for any number of vectors', [X + 'rotate_vecs_about_axis', C + 'rotate_vecs_about_axis'])
def _(v):
    f, = clift(v, 'rotate_vecs_about_axis')
    n, k = v.dim('n'), sym('k', 'I')
    hy = [le(num(1, 'I'), n)]
    hk = hy + [le(num(0, 'I'), k), lt(k, n)]
    x = v.array('x', (3, n))
    xk = [x.el((num(c, 'I'), k)) for c in range(3)]
    for many_ang in (0, 1):
        for many_ax in (0, 1):
            a = v.array('a', (n,)) if many_ang else snp.asarray(v.reals('a'))
            ax = v.array('ax', (3, n)) if many_ax else v.reals('ax', (3,))
            ak = a.el((k,)) if many_ang else L(v.reals('a'))
            axk = [ax.el((num(c, 'I'), k)) for c in range(3)] if many_ax else [ax[c] for c in range(3)]
            nn = tm.sqrt(dot(axk, axk))
            w = rodrigues([y / nn for y in axk], ak)
            for o in v.run(lambda: f(a, ax, x), hy):
                for c in range(3):
                    v.prove(f'{"angle per vector" if many_ang else "one angle"}, {"axis per vector" if many_ax else "one axis"}: component {c}',
                            hk + o.pc + [lt(num(0), nn)], eq(o.value.el((num(c, 'I'), k)), dot(w[c], xk)), split=[[eq(k, num(0, 'I')), lt(num(0, 'I'), k)]])


@check.obligations('distance between orientations: the smallest angle over the symmetry group', [X + 'quat_distance', C + 'quat_distance'])
def _(v):
    f, = clift(v, 'quat_distance')
    p, q = v.reals('p', (4,)), v.reals('q', (4,))
    for ns in (1, 2, 3):
        S = v.reals('s', (4, ns))
        d = []
        for j in range(ns):
            a, b, c, e = q
            s = [S[i, j] for i in range(4)]
            qs = [a * s[0] - b * s[1] - c * s[2] - e * s[3], a * s[1] + b * s[0] + c * s[3] - e * s[2],
                  a * s[2] - b * s[3] + c * s[0] + e * s[1], a * s[3] + b * s[2] - c * s[1] + e * s[0]]
            d.append(tm.absv(dot(p, qs)))
        hy = [le(x, num(1)) for x in d]
        for o in v.run(lambda: f(p, q, S), hy):
            best = d[0]
            for x in d[1:]:
                best = ite(lt(best, x), x, best)
            v.prove(f'{ns} operations', hy + o.pc, or_(eq(L(o.value), 2 * tm.acos(best)), and_(eq(best, num(0)), eq(L(o.value), PI))))
            for j in range(ns):
                v.prove(f'{ns} operations: not larger than through operation {j}', hy + o.pc, le(d[j], best))
