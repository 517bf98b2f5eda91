from .common import *
import numpy as np
import warnings

check = Check('T01', assumptions=[
    'the Beta function is an uninterpreted function in the obligations; its values and the integrals over all orientations are checked by quadrature (bounded)',
    'orientations are rotation matrices'])
K = 'hexrd.phase_transition.texture.kernels:'
O = 'hexrd.phase_transition.texture.unimodal_odf:'
UO = 'hexrd.phase_transition.texture.uniform_odf:'
EV = 'hexrd.phase_transition.texture.evaluation:'
KM = 'hexrd.phase_transition.texture.kernels'
BETA = {(KM, 'betafn'): lambda a, b: app('Beta', tm.toreal(L(a)), tm.toreal(L(b)))}


def kern(C, **kw):
    k = object.__new__(C)
    k.__dict__.update(dict(_crystal_symmetry_quats=None, _sample_symmetry_quats=None), **kw)
    return k


@check.obligations('shape and norm of the kernel follow its half width', [K + 'DeLaValleePoussinKernel.__init__', K + 'DeLaValleePoussinKernel.kappa', K + 'DeLaValleePoussinKernel.norm_constant', K + 'DeLaValleePoussinKernel.halfwidth'])
def _(v):
    C = v.lift(K + 'DeLaValleePoussinKernel', overrides=BETA)
    h = v.reals('h')
    B = BETA[KM, 'betafn']
    ok = raised = False
    pre = [lt(h, PI), or_(le(h, num(0)), and_(lt(num(0), tm.cos(h / 2)), lt(tm.cos(h / 2), num(1)), lt(tm.log(tm.cos(h / 2)), num(0))))]
    for o in v.run(lambda: C(h), pre, allow_exc=True):
        if o.exc is not None:
            raised = True
            v.require('rejected with a ValueError', isinstance(o.exc, ValueError), repr(o.exc))
            v.prove('rejected half widths are not positive', pre + o.pc, le(h, num(0)))
            continue
        ok = True
        k = o.value
        v.prove('accepted half widths are positive', pre + o.pc, lt(num(0), h))
        hy = o.pc + [lt(num(0), tm.cos(h / 2)), lt(tm.cos(h / 2), num(1)), lt(tm.log(tm.cos(h / 2)), num(0))]
        v.prove('half of the maximum at the half width', hy, eq(2 * L(k.kappa) * tm.log(tm.cos(h / 2)), tm.log(half())))
        v.prove('norm', hy, eq(L(k.norm_constant), B(num(tm.Fraction(3, 2)), half()) / B(num(tm.Fraction(3, 2)), L(k.kappa) + half())))
        v.prove('half width kept', hy, eq(L(k.halfwidth), h))
    v.require('half widths are accepted and rejected', ok and raised)


@check.obligations('misorientation angle and kernel values of any stack of orientations', [K + 'DeLaValleePoussinKernel.misorientation_angle', K + 'DeLaValleePoussinKernel._kernel_values', K + 'DeLaValleePoussinKernel.eval', K + 'DeLaValleePoussinKernel.has_symmetry', K + '_is_trivial_symmetry'])
def _(v):
    C = v.lift(K + 'DeLaValleePoussinKernel')
    c, ka = v.reals('C'), v.reals('kappa')
    n, m, i, j = v.dim('n'), v.dim('m'), v.dim('i'), v.dim('j')
    hy = [le(num(1), n), le(num(0), i), lt(i, n), le(num(1), m), le(num(0), j), lt(j, m)]
    R, S = v.array('R', (n, 3, 3)), v.array('S', (3, 3))
    Q = v.array('Q', (n, m, 3, 3))
    k = kern(C, _C=c, _kappa=ka)

    def cosw(a, b):
        return (sum_([L(a[x][y]) * L(b[x][y]) for x in range(3) for y in range(3)]) - 1) / 2
    mat = lambda A, *ix: [[L(A[ix + (x, y)]) for y in range(3)] for x in range(3)]
    elm = lambda A, *ix: [[A.el(ix + (num(x), num(y))) for y in range(3)] for x in range(3)]
    s = mat(S)
    for tag, a, b, at, ca in (('many against one', R, S, (i,), cosw(elm(R, i), s)), ('one against many', S, R, (i,), cosw(s, elm(R, i))),
                              ('grid against one', Q, S, (i, j), cosw(elm(Q, i, j), s)), ('one against one', S, S, (), cosw(s, s))):
        for o in v.run(lambda: (k.misorientation_angle(a, b), k.eval(a, b)), hy):
            w, e = o.value
            w = L(w) if not at else w.el(at)
            e = L(e) if not at else e.el(at)
            h = hy + o.pc
            cl = ite(lt(ca, num(-1)), num(-1, 'R'), ite(lt(num(1), ca), num(1, 'R'), ca))
            v.prove(f'{tag}: angle', h + [le(num(-1), ca), le(ca, num(1))], eq(tm.cos(w), ca))
            v.prove(f'{tag}: range', h, and_(le(num(0), w), le(w, PI)))
            v.prove(f'{tag}: kernel', h + [le(num(-1), ca), le(ca, num(1))], eq(e, c * tm.power(tm.cos(tm.acos(ca) / 2), 2 * ka)))


ROT = 'hexrd.core.rotations:'


@check.obligations('with symmetry the kernel is the mean over all images of the reference', [K + 'DeLaValleePoussinKernel._symmetrized_eval', K + 'DeLaValleePoussinKernel.eval', K + 'DeLaValleePoussinKernel.has_symmetry', K + '_is_trivial_symmetry'])
def _(v):
    n, i = v.dim('n'), v.dim('i')
    c, ka = v.reals('C'), half()  # any kappa: previous contract
    dims = [le(num(2), n), le(num(0), i), lt(i, n)]
    R, S = v.array('R', (n, 3, 3)), v.array('S', (3, 3))
    el = lambda A, *ix: [[A.el(ix + (num(x), num(y))) for y in range(3)] for x in range(3)]
    # operations: noncommuting rotations by quarter and third turns
    OPS = [np.eye(3), [[0., -1, 0], [1, 0, 0], [0, 0, 1]], [[1., 0, 0], [0, 0, -1], [0, 1, 0]], [[0., 0, 1], [1, 0, 0], [0, 1, 0]],
           [[0., 0, 1], [0, 1, 0], [-1, 0, 0]], [[-1., 0, 0], [0, 1, 0], [0, 0, -1]], [[0., 1, 0], [0, 0, 1], [1, 0, 0]]]
    OPS = [np.asarray(m).tolist() for m in OPS]
    for ns, nc in ((2, None), (None, 2), (2, 3)):
        quats = lambda k, nm: None if k is None else v.reals(nm, (4, k))
        sq, cq = quats(ns, 's'), quats(nc, 'c')

        def rot(x):
            x = snp.asarray(x)
            k = x.shape[1]
            m = OPS[:1] if k == 1 else OPS[1:1 + k] if k == ns and x is sq else OPS[4:4 + k]
            return snp.array(m if k > 1 else m[0])
        C = v.lift(K + 'DeLaValleePoussinKernel', contracts={ROT + 'rotMatOfQuat': rot}, new=True)
        k = kern(C, _C=c, _kappa=ka)
        k._crystal_symmetry_quats, k._sample_symmetry_quats = cq, sq
        # the groups are not trivial: some scalar part is away from one
        hy = dims + [lt(tm.absv(L(x[0, x.shape[1] - 1])), half()) for x in (cq, sq) if x is not None]
        one = snp.array([[1.], [0.], [0.], [0.]])
        ms = snp.asarray(rot(one if sq is None else sq)).reshape(-1, 3, 3)
        mc = snp.asarray(rot(one if cq is None else cq)).reshape(-1, 3, 3)
        for tag, a, b, at in (('one against many', S, R, (i,)), ('many against one', R, S, (i,)), ('one against one', S, v.array('W', (3, 3)), ()),
                              ('one against a stack of one', S, v.array('V', (1, 3, 3)), (num(0),)), ('stack of one against one', v.array('V', (1, 3, 3)), S, (num(0),))):
            ref, bat = (S, b) if tag == 'one against one' else (S, R) if 'many' in tag else (S, b) if a is S else (a, b)
            tot = num(0, 'R')
            hc = []
            for g in range(ms.shape[0]):
                for h in range(mc.shape[0]):
                    im = matmul(matmul([[L(ms[g, x, y]) for y in range(3)] for x in range(3)], el(ref, *((num(0),) if ref is not S else ()))), [[L(mc[h, x, y]) for y in range(3)] for x in range(3)])
                    bb = el(bat, *(at if ref is S else ()))
                    cw = (sum_([bb[x][y] * im[x][y] for x in range(3) for y in range(3)]) - 1) / 2
                    tot = tot + c * tm.cos(tm.acos(cw) / 2)
                    hc += [le(num(-1), cw), le(cw, num(1))]
            for o in v.run(lambda: k.eval(a, b), hy):
                r = o.value
                r = r.el(at) if at else L(r)
                v.prove(f'sample {ns} crystal {nc} {tag}', hy + o.pc + hc, eq(r * (ms.shape[0] * mc.shape[0]), tot))


@check.obligations('symmetry-reduced angle: the reference, the batch and both groups reach the reduction', [K + 'DeLaValleePoussinKernel._symmetry_reduced_misorientation_angle', K + 'DeLaValleePoussinKernel._misorientation_symmetries', K + 'DeLaValleePoussinKernel.misorientation_angle'])
def _(v):
    for ns, nc in ((2, None), (None, 2), (2, 3)):
        cq = None if nc is None else v.reals('c', (4, nc))
        sq = None if ns is None else v.reals('s', (4, ns))
        calls = []

        def quat(m):
            m = snp.asarray(m)
            f = lambda g: [app(f'q{w}', *[L(m[g + (x, y)]) for x in range(3) for y in range(3)]) for w in range(4)]
            return snp.array(f(())) if m.ndim == 2 else snp.array([list(r) for r in zip(*[f((g,)) for g in range(m.shape[0])])])

        def mis(a, b, symmetries=None):
            calls.append((a, b, symmetries))
            return snp.array([app('angle', *[L(a[w, 0]) for w in range(4)], *[L(b[w, g]) for w in range(4)]) for g in range(b.shape[1])]), None
        C = v.lift(K + 'DeLaValleePoussinKernel', contracts={ROT + 'quatOfRotMat': quat, ROT + 'misorientation': mis}, new=True)
        k = kern(C)
        k._crystal_symmetry_quats, k._sample_symmetry_quats = cq, sq
        hy = [lt(tm.absv(L(x[0, x.shape[1] - 1])), half()) for x in (cq, sq) if x is not None]
        S, R, G = v.array('S', (3, 3)), v.array('R', (2, 3, 3)), v.array('G', (2, 2, 3, 3))
        for tag, a, b, ref, bat in (('one, many', S, R, S, R), ('many, one', R, S, S, R), ('grid, one', G, S, S, G), ('one, one', S, v.array('W', (3, 3)), S, v.array('W', (3, 3)))):
            del calls[:]
            for o in v.run(lambda: k.misorientation_angle(a, b), hy):
                v.require('one reduction', len(calls) >= 1)
                s_ = calls[-1][2]
                v.require('groups in order crystal, sample', (s_[0] is cq if cq is not None else s_[0].shape == (4, 1)) and (len(s_) == 1 + (sq is not None)) and (sq is None or s_[1] is sq), str(s_)[:100])
                if cq is None:
                    v.eq_arrays('no crystal symmetry means identity', hy + o.pc, snp.asarray(s_[0]), snp.array([[1.], [0.], [0.], [0.]]))
                qr = quat(ref)
                lead = bat.shape[:-2]
                for ix in np.ndindex(*lead):
                    qb = quat(bat[ix]) if lead else quat(bat)
                    got = o.value[ix] if lead else o.value
                    v.prove(f'{ns} {nc} {tag} {ix}', hy + o.pc, eq(L(got), app('angle', *[L(qr[w]) for w in range(4)], *[L(qb[w]) for w in range(4)])))


@check.obligations('an orientation distribution is the weighted sum of its modes', [O + 'UnimodalODF.eval', O + 'UnimodalODF.estimated_max_value', O + 'UnimodalODF.analytic_texture_index'])
def _(v):
    C = v.lift(O + 'UnimodalODF', overrides={('hexrd.phase_transition.texture.unimodal_odf', 'beta_fn'): lambda a, b: app('Beta', tm.toreal(L(a)), tm.toreal(L(b)))}, new=True)
    n, i, m, j = v.dim('n'), v.dim('i'), v.dim('m'), v.dim('j')
    dims = [le(num(1), n), le(num(0), i), lt(i, n), le(num(1), m), le(num(0), j), lt(j, m)]

    def kv(a, b):
        return app('K', *[L(x) for r in a for x in r], *[L(x) for r in b for x in r])

    class Kern:
        has_symmetry = False
        kappa, norm_constant = v.reals('kappa'), v.reals('C')

        def eval(self, a, b):
            a, b = snp.asarray(a), snp.asarray(b)
            if b.ndim == 3:
                a, b = b, a
            assert a.ndim == 3 and b.shape == (3, 3)
            g = lambda A, *ix: [[A.el(ix + (num(x), num(y))) for y in range(3)] for x in range(3)]
            return snp.ndarray.symb((a.vshape[0],) if hasattr(a, 'vshape') else (a.shape[0],), lambda ix: kv(g(a, ix[0]), g(b)))
    for N in (1, 2, 3):
        M, w = v.array('M', (N, 3, 3)), v.reals('w', (N,))
        o_ = object.__new__(C)
        o_.__dict__.update(_kernel=Kern(), _modal_orientations=M, _n_components=N, _weights=w)
        g = lambda A, *ix: [[A.el(ix + (num(x), num(y))) for y in range(3)] for x in range(3)]
        R, S = v.array('R', (n, 3, 3)), v.array('S', (3, 3))
        for o in v.run(lambda: (o_.eval(R), o_.eval(S), o_.estimated_max_value()), dims):
            a, b, mx = o.value
            v.prove(f'{N} modes: stack', dims + o.pc, eq(a.el((i,)), sum_([w[k] * kv(g(R, i), g(M, num(k))) for k in range(N)])))
            v.prove(f'{N} modes: single', dims + o.pc, eq(L(b), sum_([w[k] * kv(g(S), g(M, num(k))) for k in range(N)])))
            vals = [sum_([w[k] * kv(g(M, num(q)), g(M, num(k))) for k in range(N)]) for q in range(N)]
            v.prove(f'{N} modes: the maximum is over the modes', dims + o.pc, and_(*[le(x, L(mx)) for x in vals], or_(*[eq(L(mx), x) for x in vals])))
        for sym_ in (False, True):
            o_._kernel.has_symmetry = sym_
            for o in v.run(lambda: o_.analytic_texture_index(), []):
                if N > 1 or sym_:
                    v.require('closed form only for one mode without symmetry', o.value is None)
                else:
                    kk = o_._kernel
                    v.prove('texture index in closed form', o.pc, eq(L(o.value) * PI, 2 * kk.norm_constant * kk.norm_constant * app('Beta', 2 * kk.kappa + half(), num(tm.Fraction(3, 2), 'R'))))


LAUE = ['ci', 'c2h', 'd2h', 'c4h', 'd4h', 's6', 'd3d', 'c6h', 'd6h', 'th', 'oh']
ORDER = dict(ci=1, c2h=2, d2h=4, c4h=4, d4h=8, s6=3, d3d=6, c6h=6, d6h=12, th=12, oh=24)
SAMPLE = [None, 'triclinic', 'monoclinic', 'orthorhombic', 'Orthorhombic', 'c4h']


def rots(rng, *n):
    from scipy.spatial.transform import Rotation
    k = int(np.prod(n)) if n else 1
    q = rng.normal(size=(k, 4))
    return Rotation.from_quat(q).as_matrix().reshape(n + (3, 3))


def group(label, sample=False):
    """rotation matrices of a group, generated from its axes"""
    if label is None:
        return np.eye(3)[None]
    label = label.lower()
    if sample:
        label = dict(triclinic='ci', monoclinic='c2h', orthorhombic='d2h').get(label, label)
    from scipy.spatial.transform import Rotation as Ro
    R = lambda ax, a: Ro.from_rotvec(np.radians(a) * np.asarray(ax, float) / np.linalg.norm(ax)).as_matrix()
    z, x = (0, 0, 1), (1, 0, 0)
    gens = dict(ci=[], c2h=[R((0, 1, 0), 180)], d2h=[R(x, 180), R(z, 180)], c4h=[R(z, 90)], d4h=[R(z, 90), R(x, 180)], s6=[R(z, 120)], d3d=[R(z, 120), R(x, 180)],
                c6h=[R(z, 60)], d6h=[R(z, 60), R(x, 180)], th=[R(x, 180), R(z, 180), R((1, 1, 1), 120)], oh=[R(z, 90), R((1, 1, 1), 120)])[label]
    G = [np.eye(3)]
    k = 0
    while k < len(G):
        for g in gens:
            h = g @ G[k]
            if not any(np.allclose(h, e) for e in G):
                G.append(h)
        k += 1
    assert len(G) == ORDER[label], label
    return np.array(G)


def angle(a, b):
    return np.arccos(np.clip((np.einsum('...ij,...ij->...', a, b) - 1) / 2, -1, 1))


def kernel_value(w, h):
    """value by the definition: cos^2k falling to one half at the half width, mean one over all orientations (density (1-cos w)/pi)"""
    k2 = np.log(.5) / np.log(np.cos(h / 2))
    x, wt = np.polynomial.legendre.leggauss(400)
    u = (x + 1) * np.pi / 2
    return np.cos(np.asarray(w) / 2) ** k2 / (np.pi / 2 * np.sum(wt * np.cos(u / 2) ** k2 * (1 - np.cos(u)) / np.pi))


@check.runtime('kernels have mean one, fall to a half at the half width and respect their symmetry', [K + 'DeLaValleePoussinKernel', K + '_symmetry_quaternions'], n=60)
def _(t):
    from hexrd.phase_transition.texture import DeLaValleePoussinKernel as D
    from hexrd.core import rotations as rt
    for i in t.cases():
        rng = t.rng
        h = float(np.radians(rng.choice([rng.uniform(1, 10), rng.uniform(10, 90)])))
        cs = None if i % 5 == 0 else LAUE[int(rng.integers(11))]
        ss = SAMPLE[int(rng.integers(len(SAMPLE)))]
        as_q = i % 3 == 1
        cq = rt.quatOfLaueGroup(cs) if as_q and cs else cs
        d = dict(halfwidth=h, crystal=cs, sample=ss, quaternions=as_q)
        k = D(h, cq, ss)
        t.expect(k.halfwidth == h and k.crystal_symmetry == (None if as_q else cs) and k.sample_symmetry == ss, 'half width and labels', **d)
        G, S = group(cs), group(ss, True)
        t.expect(k.has_symmetry == (len(G) * len(S) > 1), 'symmetry is active when some group is not trivial', **d)
        shape = [(), (1,), (3,), (2, 2), (1, 1), (0,)][i % 6]
        g0, g = rots(rng), rots(rng, *shape) if 0 not in shape else np.zeros((0, 3, 3))
        if shape and g.size:
            g[(0,) * len(shape)] = g0
        g0 = g0.reshape(3, 3)
        im = np.einsum('sij,jk,ckl->scil', S, g0, G)
        w = angle(g[..., None, None, :, :], im)
        want = kernel_value(w, h).mean(axis=(-1, -2)) if g.size else np.zeros(shape)
        for tag, got in (('many against one', k.eval(g, g0)), ('one against many', k.eval(g0, g))):
            t.expect(np.shape(got) == shape, f'{tag}: shape', got=np.shape(got), want=shape, **d)
            t.close(got, want, f'{tag}: value', rtol=1e-6, atol=1e-9 + 1e-9 * k.norm_constant, **d)
        if g.size:
            for tag, got in (('many against one', k.misorientation_angle(g, g0)), ('one against many', k.misorientation_angle(g0, g))):
                t.expect(np.shape(got) == shape, f'angle {tag}: shape', got=np.shape(got), want=shape, **d)
                t.close(got, w.min(axis=(-1, -2)), f'angle {tag}', atol=3e-7, rtol=1e-7, **d)
            a, b = S[int(rng.integers(len(S)))], G[int(rng.integers(len(G)))]
            t.close(k.eval(a @ g @ b, g0), want, 'equivalent orientations have equal values', rtol=1e-6, atol=1e-9 + 1e-9 * k.norm_constant, **d)
            t.close(k.eval(g, a @ g0 @ b), want, 'equivalent references have equal values', rtol=1e-6, atol=1e-9 + 1e-9 * k.norm_constant, **d)
        p = D(h)
        R = rots(rng, 2, 3)
        Q = rots(rng, 3)
        t.close(p.misorientation_angle(R, Q), angle(R, Q), 'angles of two stacks without symmetry', atol=3e-7, **d)
        t.close(p.eval(R, Q), kernel_value(angle(R, Q), h), 'kernel of two stacks without symmetry', rtol=1e-6, atol=1e-9, **d)
        from scipy.spatial.transform import Rotation as Ro
        turn = Ro.from_rotvec(h * np.array([.6, 0, .8])).as_matrix()
        t.close(p.eval(g0 @ turn, g0) * 2, p.eval(g0, g0), 'half of the maximum at the half width', rtol=1e-8, **d)
        t.close(p.eval(g0, g0), p.norm_constant, 'maximum', rtol=1e-8, **d)
        if k.has_symmetry:
            t.raises(ValueError, lambda: k.eval(R, Q), 'two stacks with symmetry', **d)
            t.raises(ValueError, lambda: k.misorientation_angle(R, Q), 'two stacks with symmetry', **d)
        t.raises(ValueError, lambda: p.misorientation_angle(np.eye(4), g0), 'not a rotation matrix', **d)
        t.close(p.eval(g0.tolist(), [g0.tolist()]), [p.norm_constant], 'orientations as lists', rtol=1e-8, **d)
        for wide in (1.58, 2.):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                D(wide)
            t.expect(any(issubclass(q.category, UserWarning) for q in ws), 'very broad kernels are announced', halfwidth=wide)
        for bad in (0, 0., -h):
            t.raises(ValueError, lambda: D(bad), 'half width not positive', bad=bad)
        for bad in ('m3m!', 3, np.zeros((3, 4)), np.zeros(4)):
            t.raises(ValueError, lambda: D(h, bad), 'unknown crystal symmetry', bad=bad)
            t.raises(ValueError, lambda: D(h, None, bad), 'unknown sample symmetry', bad=bad)


@check.runtime('orientation distributions: weighted modes, uniform texture, batches, texture index', [O + 'UnimodalODF', UO + 'UniformODF', EV + 'eval_odf_batch', EV + 'eval_random_orientations', EV + 'texture_index', EV + 'texture_norm'], n=30)
def _(t):
    from hexrd.phase_transition.texture import DeLaValleePoussinKernel as D, UnimodalODF, UniformODF
    from hexrd.phase_transition.texture import evaluation as ev
    x, wt = np.polynomial.legendre.leggauss(400)
    u = (x + 1) * np.pi / 2
    for i in t.cases():
        rng = t.rng
        h = float(np.radians(rng.uniform(8, 80)))
        N = int(rng.integers(1, 4))
        cs = [None, 'oh', 'd6h', 'd3d', 'ci'][i % 5]
        ss = [None, 'orthorhombic', 'triclinic'][i % 3]
        k = D(h, cs, ss)
        modes = rots(rng, N)
        w = rng.dirichlet(np.ones(N))
        given = i % 2 == 1
        single = N == 1 and i % 4 < 2
        m0, w0 = modes.copy(), w.copy()
        odf = UnimodalODF(modes[0] if single else modes, k, w if given else None)
        w_ = w0 if given else np.full(N, 1 / N)
        d = dict(halfwidth=h, crystal=cs, sample=ss, modes=N, weights=w_)
        t.close(odf.weights, w_, 'weights', **d)
        t.close(odf.modal_orientations, m0, 'modes', **d)
        t.expect(odf.n_components == N and odf.kernel is k and odf.crystal_symmetry == cs and odf.sample_symmetry == ss, 'parts', **d)
        if given:
            w *= 2
            odf.weights[:] = 0
            odf.modal_orientations[:] = 0
            t.close(odf.weights, w_, 'weights are not those of the caller', **d)
            t.close(odf.modal_orientations, m0, 'modes are not those of the caller', **d)
        shape = [(), (1,), (5,), (2, 3), (1, 1)][int(rng.integers(5))]
        g = rots(rng, *shape).reshape(shape + (3, 3))
        G, S = group(cs), group(ss, True)

        def f(g):
            r = 0
            for q in range(N):
                im = np.einsum('sij,jk,ckl->scil', S, m0[q], G)
                r = r + w_[q] * kernel_value(angle(g[..., None, None, :, :], im), h).mean(axis=(-1, -2))
            return r
        got = odf.eval(g)
        t.expect(np.shape(got) == shape, 'shape of the values', got=np.shape(got), want=shape, **d)
        t.close(got, f(g), 'weighted sum of the modes', rtol=1e-6, atol=1e-9, **d)
        t.expect(np.all(np.asarray(got) >= 0), 'density is not negative', **d)
        t.close(odf.estimated_max_value(), f(m0).max(), 'largest value over the modes', rtol=1e-6, **d)
        n = int(rng.integers(1, 24))
        gs = rots(rng, n)
        for o in (odf, UniformODF(cs, ss)):
            want = f(gs) if o is odf else np.ones(n)
            for c in {1, 2, 3, 5, n - 1, n, n + 1} - {0}:
                r = ev.eval_odf_batch(o, gs, chunk_size=c)
                t.expect(np.shape(r) == (n,), 'one value per orientation', n=n, chunk=c, **d)
                t.close(r, want, 'values in batches', rtol=1e-6, atol=1e-9, n=n, chunk=c, **d)
            t.close(ev.eval_odf_batch(o, gs[0], chunk_size=2), want[0], 'single orientation', rtol=1e-6, atol=1e-9, **d)
        seed = int(rng.integers(1000))
        R, v = ev.eval_random_orientations(odf, 4000, seed)
        t.expect(R.shape == (4000, 3, 3), 'as many orientations as asked for', **d)
        t.close(R @ R.transpose(0, 2, 1), np.broadcast_to(np.eye(3), R.shape), 'orientations are rotations', atol=1e-9, **d)
        t.close(np.linalg.det(R), np.ones(4000), 'orientations are rotations', atol=1e-9, **d)
        t.close(v, f(R), 'values of these orientations', rtol=1e-6, atol=1e-9, **d)
        t.close(R.mean(axis=0), np.zeros((3, 3)), 'random orientations are uniform: mean', atol=6 / np.sqrt(3 * 4000), **d)
        t.close((R ** 2).mean(axis=0), np.full((3, 3), 1 / 3), 'random orientations are uniform: second moments', atol=6 * .3 / np.sqrt(4000), **d)
        cw = np.arccos(np.clip((np.trace(R, axis1=1, axis2=2) - 1) / 2, -1, 1))
        t.close(np.mean(cw), np.pi / 2 + 2 / np.pi, 'random orientations are uniform: rotation angle', atol=6 * .65 / np.sqrt(4000), **d)
        if cs in (None, 'ci') and ss in (None, 'triclinic'):
            if N == 1:
                J = np.pi / 2 * np.sum(wt * kernel_value(u, h) ** 2 * (1 - np.cos(u)) / np.pi)
                t.close(odf.texture_index(), J, 'texture index of one mode', rtol=1e-6, **d)
                t.close(odf.norm(), np.sqrt(J), 'norm of one mode', rtol=1e-6, **d)
        if N > 1 or k.has_symmetry:
            t.expect(odf.analytic_texture_index() is None, 'no closed form', **d)
            v = f(R)
            t.close(odf.texture_index(4000, seed), np.mean(v ** 2) / np.mean(v) ** 2, 'texture index is the mean square over random orientations', rtol=1e-6, **d)
            t.close(odf.norm(4000, seed), np.sqrt(np.mean(v ** 2)) / np.mean(v), 'norm is the root of the texture index', rtol=1e-6, **d)
        uni = UniformODF(cs, ss)
        t.expect(uni.value == 1 and uni.texture_index() == 1 and uni.norm() == 1 and uni.analytic_texture_index() == 1, 'uniform texture is one', **d)
        t.expect(uni.crystal_symmetry == cs and uni.sample_symmetry == ss, 'labels of the uniform texture', **d)
        t.expect(np.shape(uni.eval(g)) == shape, 'shape of the uniform values', **d)
        t.close(uni.eval(g), np.ones(shape), 'uniform values', **d)
        for bad in (np.eye(4), np.zeros((2, 3)), np.zeros(3)):
            t.raises(ValueError, lambda: odf.eval(bad), 'not orientations', **d)
            t.raises(ValueError, lambda: uni.eval(bad), 'not orientations', **d)
            t.raises(ValueError, lambda: UnimodalODF(bad, k), 'not modes', **d)
        t.raises(ValueError, lambda: UnimodalODF(m0, k, np.full(N, .9 / N)), 'weights do not sum to one', **d)
        t.raises(ValueError, lambda: UnimodalODF(m0, k, np.ones(N + 1) / (N + 1)), 'one weight too many', **d)
        if N > 1:
            t.raises(ValueError, lambda: UnimodalODF(m0, k, np.r_[-.5, 1.5, np.zeros(N - 2)]), 'negative weight', **d)
        for bad in (np.zeros((2, 3)), np.zeros((2, 4, 3)), m0[None], np.eye(2), np.zeros((2, 2))):
            t.raises(ValueError, lambda: UnimodalODF(bad, k), 'not modes', shape=bad.shape, **d)
        t.close(odf.eval(g.tolist()), f(g), 'orientations as lists', rtol=1e-6, atol=1e-9, **d)
        t.expect(isinstance(odf.eval(gs[0]), float) and isinstance(uni.eval(gs[0]), float), 'a single orientation gives a number', **d)
        t.raises(TypeError, lambda: UnimodalODF(m0, lambda a, b: 1.), 'kernel of another kind', **d)
        t.raises(ValueError, lambda: UniformODF('nope', ss), 'unknown symmetry', **d)
