from .common import *
import numpy as np

check = Check('R01', assumptions=[
    'scipy.spatial.transform.Rotation obeys the contract in vc/deps.py (its documented conventions)'])
M = 'hexrd.core.rotations:'
OV = deps.OVERRIDES


def colq(v, n):
    a = v.array('q', (4, n))
    j = sym('j', 'I')
    q = [a.el((k, j)) for k in range(4)]
    return a, j, q, [le(num(0), j), lt(j, n)]


@check.obligations('rotMatOfQuat: any number of unit quaternions', [M + 'rotMatOfQuat', M + '_rotmatofquat'])
def _(v):
    f = v.lift(M + 'rotMatOfQuat')
    n = v.dim('n')
    a, j, q, hj = colq(v, n)
    H = [le(num(1), n)]
    for o in v.run(lambda: f(a), H):
        r = o.value
        one = r.ndim == 2
        el = lambda i, k: r.el((i, k)) if one else r.el((j, i, k))
        hyp = H + o.pc + hj + [unit_hyp(q)]
        if one:
            hyp.append(eq(j, num(0)))
        R = [[el(i, k) for k in range(3)] for i in range(3)]
        W = deps.qmat(q)
        for i in range(3):
            for k in range(3):
                v.prove(f'entry {i}{k} one={one}', hyp, eq(R[i][k], W[i][k]))
    # lemma: the matrix is a proper rotation and acts as q v q*
    q = [sym('a'), sym('b'), sym('c'), sym('d')]
    W, rel = deps.qmat(q), unit_rel(q)
    P = matmul(W, tr(W))
    for i in range(3):
        for k in range(3):
            v.prove(f'lemma orthonormal {i}{k}', [], eq(P[i][k], eye()[i][k]), relations=rel,
                    sampler=usamp(['a', 'b', 'c', 'd']))
    v.prove('lemma det=1', [], eq(dot(W[0], cross(W[1], W[2])), num(1)), relations=rel,
            sampler=usamp(['a', 'b', 'c', 'd']))


def usamp(names):
    def s(rng):
        x = [rng.gauss(0, 1) for _ in names]
        m = sum(y * y for y in x) ** .5
        return {n: y / m for n, y in zip(names, x)}
    return s


@check.obligations('quatOfExpMap: unit, non-negative scalar part, Rodrigues matrix', [M + 'quatOfExpMap', M + 'rotMatOfExpMap'])
def _(v):
    f = v.lift(M + 'quatOfExpMap', overrides=OV)
    g = v.lift(M + 'rotMatOfExpMap')
    h = v.lift(M + 'rotMatOfQuat')
    e = v.reals('e', (3,))
    E_ = [e[k] for k in range(3)]
    n2 = dot(E_, E_)
    ang = tm.sqrt(n2)
    for o in v.run(lambda: (f(e), g(e), h(f(e)))):
        q, R, R2 = o.value
        Q = [q[k] for k in range(4)]
        v.prove('unit', o.pc, eq(dot(Q, Q), num(1)))
        v.prove('q0>=0', o.pc, le(num(0), Q[0]))
        v.eq_arrays('rotMatOfExpMap == rotMatOfQuat o quatOfExpMap', o.pc, R, R2)
        nz = lt(num(0), n2)
        n = [tm.div(x, ang) for x in E_]
        v.eq_arrays('Rodrigues', o.pc + [nz], R, snp.asarray(rodrigues(n, ang)))
        z = [eq(x, num(0)) for x in E_]
        v.eq_arrays('zero map is identity', o.pc + z, R, snp.asarray(eye()))


@check.obligations('quatOfExpMap: columns are treated independently', [M + 'quatOfExpMap'])
def _(v):
    f = v.lift(M + 'quatOfExpMap', overrides=OV)
    n = v.dim('n')
    e = v.array('e', (3, n))
    j = sym('j', 'I')
    H = [le(num(2), n)]
    one = v.reals('x', (3,))
    ref = {}
    for o in v.run(lambda: f(one)):
        ref[tuple(o.pc)] = o
    for o in v.run(lambda: f(e), H):
        Q = [o.value.el((k, j)) for k in range(4)]
        hyp = H + o.pc + [le(num(0), j), lt(j, n)]
        sub = {sym(f'x_{k}'): e.el((k, j)) for k in range(3)}
        for pc, o1 in ref.items():
            hy = hyp + [tm.subst(c, sub) for c in pc]
            for k in range(4):
                v.prove(f'column formula {k}', hy, eq(Q[k], tm.subst(o1.value[k], sub)))


@check.obligations('quatOfRotMat: unit, q0>=0, same rotation', [M + 'quatOfRotMat', M + '_scipy_rotation_to_quat'])
def _(v):
    f = v.lift(M + 'quatOfRotMat', overrides=OV)
    q = [sym(c) for c in 'abcd']
    W = snp.asarray(deps.qmat(q))
    for o in v.run(lambda: f(W), [unit_hyp(q)]):
        p = o.value
        v.require('shape (4,1)', p.shape == (4, 1), str(p.shape))
        P = [p[k, 0] for k in range(4)]
        hyp = [unit_hyp(q)] + o.pc
        v.prove('unit', hyp, eq(dot(P, P), num(1)))
        v.prove('q0>=0', hyp, le(num(0), P[0]))
        PM, = [deps.qmat(P)]
        for i in range(3):
            for k in range(3):
                v.prove(f'matrix {i}{k}', hyp, eq(PM[i][k], W[i, k]))


@check.obligations('quatOfAngleAxis: Rodrigues rotation of each column', [M + 'quatOfAngleAxis', 'hexrd.core.matrixutil:unitVector'])
def _(v):
    f = v.lift(M + 'quatOfAngleAxis', overrides=OV)
    a = v.reals('t', (2,))
    ax = v.reals('n', (3, 2))
    for o in v.run(lambda: f(a, ax)):
        for j in range(2):
            N = [ax[k, j] for k in range(3)]
            Q = [o.value[k, j] for k in range(4)]
            hyp = o.pc + [eq(dot(N, N), num(1))]
            rel = unit_rel(N)
            v.prove(f'unit {j}', hyp, eq(dot(Q, Q), num(1)), relations=rel, sampler=usamp([f'n_{k}_{j}' for k in range(3)]))
            v.prove(f'q0>=0 {j}', hyp, le(num(0), Q[0]), sampler=usamp([f'n_{k}_{j}' for k in range(3)]))
            W = deps.qmat(Q)
            R = rodrigues(N, a[j])
            for i in range(3):
                for k in range(3):
                    v.prove(f'Rodrigues {j}{i}{k}', hyp, eq(W[i][k], R[i][k]), relations=rel,
                            split=[(lt(a[j], num(0)), eq(a[j], num(0)), lt(num(0), a[j]))],
                            sampler=usamp([f'n_{k}_{j}' for k in range(3)]))


@check.obligations('make_rmat_euler: product of axis rotations, all orders', [M + 'make_rmat_euler'])
def _(v):
    f = v.lift(M + 'make_rmat_euler', overrides=OV)
    t = v.reals('t', (3,))
    for order in ['xyz', 'zyx', 'zxy', 'yxz', 'yzx', 'xzy', 'xyx', 'xzx', 'yxy', 'yzy', 'zxz', 'zyz', 'XYZ']:
        for ext in (True, False):
            for o in v.run(lambda: f(t, order, extrinsic=ext)):
                A = [AX[c](t[k]) for k, c in enumerate(order.lower())]
                W = matmul(matmul(A[2], A[1]), A[0]) if ext else matmul(matmul(A[0], A[1]), A[2])
                v.eq_arrays(f'{order} extrinsic={ext}', o.pc, o.value, snp.asarray(W))


@check.obligations('Euler extraction inverts construction', [M + 'angles_from_rmat_xyz', M + 'angles_from_rmat_zxz', M + 'RotMatEuler'])
def _(v):
    C = {M + '_check_is_rmat': lambda x: snp.asarray(x)}
    fx = v.lift(M + 'angles_from_rmat_xyz', contracts=C, overrides=OV)
    fz = v.lift(M + 'angles_from_rmat_zxz')
    mk = v.lift(M + 'make_rmat_euler')
    q = [sym(c) for c in 'abcd']
    W = snp.asarray(deps.qmat(q))
    H = [unit_hyp(q)]
    for o in v.run(lambda: mk(fx(W), 'xyz', extrinsic=True), H):
        v.eq_arrays('xyz extrinsic', H + o.pc, o.value, W)
    for o in v.run(lambda: mk(fz(W), 'zxz', extrinsic=False), H):
        v.eq_arrays('zxz intrinsic', H + o.pc, o.value, W)
    RE = v.lift(M + 'RotMatEuler')
    for order in ('xyz', 'zyz', 'yxz'):
        for ext in (True, False):
            for units in ('radians', 'degrees'):
                def go():
                    r = RE(snp.asarray([0., 0., 0.]), order, extrinsic=ext, units=units)
                    r.rmat = W
                    return r.rmat
                for o in v.run(go, H):
                    v.eq_arrays(f'RotMatEuler {order} {ext} {units}', H + o.pc, o.value, W)

    def conv():
        r = RE(snp.asarray([sym('t0'), sym('t1'), sym('t2')]), 'xyz', units='radians')
        m = r.rmat
        r.units = 'degrees'
        return m, r.rmat
    for o in v.run(conv):
        v.eq_arrays('changing units keeps the rotation', o.pc, o.value[1], o.value[0])


@check.obligations('angleAxisOfRotMat: unit axis, angle in [0, pi], same rotation', [M + 'angleAxisOfRotMat'])
def _(v):
    f = v.lift(M + 'angleAxisOfRotMat', overrides=OV)
    q = [sym(c) for c in 'abcd']
    W = snp.asarray(deps.qmat(q))
    H = [unit_hyp(q)]
    for o in v.run(lambda: f(W), H):
        ang, ax = o.value
        v.require('shapes', ang.shape == (1,) and ax.shape == (3, 1), f'{ang.shape} {ax.shape}')


# ------------------------------------------------------------------ executable contract
@check.runtime('parametrizations agree', n=150)
def _(t):
    from hexrd.core import rotations as r
    rng = t.rng
    for k in t.cases():
        n = int(rng.integers(1, 5))
        v = np.array([rand_rot(rng) for _ in range(n)]).T
        if k % 7 == 0:
            v[:, 0] *= np.pi / max(np.linalg.norm(v[:, 0]), 1e-3) if np.linalg.norm(v[:, 0]) else 1
        Rw = np.array([nrot(v[:, i]) for i in range(n)])
        q = np.asarray(r.quatOfExpMap(v)).reshape(4, n)
        t.close((q * q).sum(0), 1.0, 'quatOfExpMap unit', v=v)
        t.expect((q[0] >= 0).all(), 'quatOfExpMap q0>=0', v=v)
        t.close([nqmat(q[:, i]) for i in range(n)], Rw, 'quatOfExpMap matrix', atol=1e-7, v=v)
        t.close(np.asarray(r.rotMatOfExpMap(v)).reshape(n, 3, 3), Rw, 'rotMatOfExpMap', atol=1e-7, v=v)
        t.close(np.asarray(r.rotMatOfQuat(q)).reshape(n, 3, 3), Rw, 'rotMatOfQuat', atol=1e-7, v=v)
        if n > 1:
            e = r.expMapOfQuat(q)
            t.close([nrot(e[:, i]) for i in range(n)], Rw, 'expMapOfQuat', atol=1e-6, v=v)
            t.expect((np.sqrt((e * e).sum(0)) <= np.pi + 1e-9).all(), 'expMapOfQuat norm <= pi', v=v)
            e = r.expMapOfQuat(-q)
            t.close([nrot(e[:, i]) for i in range(n)], Rw, 'expMapOfQuat of -q', atol=1e-6, v=v)
        # one rotation: as a vector, a column or a row
        for x in (v[:, 0], v[:, :1], v[:, 0].reshape(1, 3), list(v[:, 0])):
            t.close(nqmat(np.asarray(r.quatOfExpMap(x)).reshape(4)), Rw[0], 'quatOfExpMap of one vector', atol=1e-7, x=x)
        for x in (v[:, 0], v[:, :1]):
            t.close(r.rotMatOfExpMap(x), Rw[0], 'rotMatOfExpMap of one vector', atol=1e-7, x=x)
        for x in (q[:, 0], q[:, :1], q[:, 0].reshape(1, 4), -q[:, 0]):
            e = np.asarray(r.expMapOfQuat(x))
            t.expect(e.shape == (3,), 'expMapOfQuat of one quaternion is a vector', x=x, got=e.shape)
            t.close(nrot(e), Rw[0], 'expMapOfQuat of one quaternion', atol=1e-6, x=x)
            t.expect(np.linalg.norm(e) <= np.pi + 1e-9, 'expMapOfQuat norm <= pi', x=x)
        for x in (q[:, 0], q[:, :1], -q[:, 0]):
            t.close(r.rotMatOfQuat(x), Rw[0], 'rotMatOfQuat of one quaternion', atol=1e-7, x=x)
        for x in (Rw[0], Rw[:1]):
            t.close(nqmat(np.asarray(r.quatOfRotMat(x)).reshape(4)), Rw[0], 'quatOfRotMat of one matrix', atol=1e-7, x=x)
            ang, ax = r.angleAxisOfRotMat(x)
            t.close(nrot(np.ravel(ang)[0] * np.ravel(ax)), Rw[0], 'angleAxisOfRotMat of one matrix', atol=1e-6, x=x)
        q2 = r.quatOfRotMat(Rw)
        t.close((q2 * q2).sum(0), 1.0, 'quatOfRotMat unit', v=v)
        t.expect((q2[0] >= 0).all(), 'quatOfRotMat q0>=0', v=v)
        t.close([nqmat(q2[:, i]) for i in range(n)], Rw, 'quatOfRotMat matrix', atol=1e-7, v=v)
        ang, ax = r.angleAxisOfRotMat(Rw)
        t.expect((ang >= 0).all() and (ang <= np.pi + 1e-9).all(), 'angle in [0, pi]', v=v)
        t.close([nrot(ang[i] * ax[:, i]) for i in range(n)], Rw, 'angleAxisOfRotMat', atol=1e-6, v=v)
        q3 = r.quatOfAngleAxis(ang, np.where(np.isnan(ax), 0, ax) + 0)
        t.close([nqmat(q3[:, i]) for i in range(n)], Rw, 'quatOfAngleAxis', atol=1e-6, v=v)
        big = rng.uniform(-7, 7, n)
        axs = rand_unit(rng, 3, n) * rng.uniform(0.3, 3)
        q4 = r.quatOfAngleAxis(big, axs)
        t.close([nqmat(q4[:, i]) for i in range(n)],
                [nrot(big[i] * axs[:, i] / np.linalg.norm(axs[:, i])) for i in range(n)],
                'quatOfAngleAxis any angle, axis of any length', atol=1e-7, big=big, axs=axs)


@check.runtime('exact half turns', n=1)
def _(t):
    from hexrd.core import rotations as r
    for d in ([1, -1, -1], [-1, 1, -1], [-1, -1, 1], [1, 1, 1]):
        W = np.diag(np.array(d, float))
        q = r.quatOfRotMat(W)
        t.close((q * q).sum(), 1.0, 'quatOfRotMat of an exact half turn is a unit quaternion', W=W)
        t.close(nqmat(q[:, 0]), W, 'quatOfRotMat of an exact half turn', W=W)
    for a in np.eye(4):
        for b in np.eye(4):
            p = r.quatProduct(b.reshape(4, 1), a.reshape(4, 1))[:, 0]
            t.close((p * p).sum(), 1.0, 'quatProduct unit', a=a, b=b)
            t.close(nqmat(p), nqmat(a) @ nqmat(b), 'quatProduct of half turns', a=a, b=b)


@check.runtime('Euler angles', n=60)
def _(t):
    from hexrd.core import rotations as r
    rng = t.rng
    for k in t.cases():
        order = r.axes_orders[k % 12]
        ext = bool(rng.integers(2))
        a = rng.uniform(-3, 3, 3)
        Ax = [nrot(np.eye(3)['xyz'.index(c)] * a[i]) for i, c in enumerate(order)]
        W = Ax[2] @ Ax[1] @ Ax[0] if ext else Ax[0] @ Ax[1] @ Ax[2]
        t.close(r.make_rmat_euler(a, order, extrinsic=ext), W, 'make_rmat_euler', order=order, ext=ext, a=a)
        if k % 5 == 0:   # gimbal lock
            a[1] = rng.choice([np.pi / 2, -np.pi / 2])
            W = r.make_rmat_euler(a, 'xyz')
        t.close(r.make_rmat_euler(r.angles_from_rmat_xyz(W), 'xyz', extrinsic=True), W, 'xyz round trip', W=W, atol=1e-7)
        W0 = W if k % 3 else nrot([0, 0, a[0]])
        t.close(r.make_rmat_euler(r.angles_from_rmat_zxz(W0), 'zxz', extrinsic=False), W0, 'zxz round trip', W=W0, atol=1e-7)
        for units in ('radians', 'degrees'):
            e = r.RotMatEuler(np.zeros(3), order, extrinsic=ext, units=units)
            e.rmat = W
            t.close(e.rmat, W, 'RotMatEuler.rmat round trip', order=order, ext=ext, units=units, W=W, atol=1e-7)
            x = rand_rot(rng)
            e.exponential_map = x
            t.close(e.rmat, nrot(x), 'RotMatEuler.exponential_map sets rmat', order=order, x=x, atol=1e-6)
            if np.linalg.norm(x) > 1e-6:
                t.close(nrot(e.exponential_map), nrot(x), 'exponential_map round trip', order=order, x=x, atol=1e-6)
            o2, x2 = r.axes_orders[int(rng.integers(12))], bool(rng.integers(2))
            f = r.RotMatEuler(np.zeros(3), order, extrinsic=ext, units=units)
            f.axes_order, f.extrinsic, f.angles = o2.upper(), x2, (a if units == 'radians' else np.degrees(a)).reshape(3, 1)
            t.close(f.rmat, r.make_rmat_euler(a, o2, extrinsic=x2), 'RotMatEuler with order, convention and angles set', order=o2, ext=x2, units=units, a=a)
            t.expect(f.axes_order == o2 and f.extrinsic == x2 and f.units == units, 'RotMatEuler settings read back', order=o2, ext=x2, units=units)
            aa = list(map(float, a if units == 'radians' else np.degrees(a)))
            t.close(r.RotMatEuler(aa, order, extrinsic=ext, units=units).rmat, r.make_rmat_euler(a, order, extrinsic=ext), 'RotMatEuler of a list of angles', order=order, ext=ext, units=units, a=a)
            t.raises(RuntimeError, lambda: setattr(f, 'axes_order', 'xxz'), 'unknown axes order rejected')
            t.raises(RuntimeError, lambda: setattr(f, 'extrinsic', 1), 'convention must be a bool')
            t.raises(RuntimeError, lambda: setattr(f, 'units', 'grad'), 'unknown units rejected')
            t.raises(RuntimeError, lambda: setattr(f, 'angles', [1., 2.]), 'three angles required')
            R0 = e.rmat
            e.units = 'degrees' if units == 'radians' else 'radians'
            t.close(e.rmat, R0, 'unit change keeps rotation', order=order, x=x, atol=1e-9)
        t.raises(RuntimeError, lambda: r.angles_from_rmat_xyz(W + 0.1 * np.eye(3)), 'non-orthogonal matrix rejected')
