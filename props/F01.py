from .common import *
import numpy as np

check = Check('F01', assumptions=[
    'exp, sin, cos, tanh are uninterpreted apart from their standard identities; derivatives are taken by the calculus rules for +, *, /, powers and exp',
    'the special functions erfc, exp1, wofz of the pink-beam profiles are covered by the bounded contracts'])
P = 'hexrd.core.fitting.peakfunctions:'
FP = 'hexrd.core.fitting.fitpeak:'
W = 'hexrd.powder.wppf.peakfunctions:'
I = sym('i', 'I')


def unit_g(x, x0, w):
    from hexrd.core import constants
    s = w / tm.L(constants.sigma_to_fwhm)
    return tm.exp(-((x - x0) * (x - x0)) / (2 * s * s))


def unit_l(x, x0, w):
    g = w / 2
    return g * g / ((x - x0) * (x - x0) + g * g)


def pv(x, x0, w, n):
    return n * unit_g(x, x0, w) + (1 - n) * unit_l(x, x0, w)


def spv(x, x0, w0, w1, n0, n1):
    return ite(le(x0, x), pv(x, x0, w1, n1), pv(x, x0, w0, n0))


SHAPES = {
    'gaussian1d': (5, lambda p, x: p[0] * unit_g(x, p[1], p[2]) + p[3] + p[4] * x),
    'lorentzian1d': (5, lambda p, x: p[0] * unit_l(x, p[1], p[2]) + p[3] + p[4] * x),
    'pvoigt1d': (6, lambda p, x: p[0] * pv(x, p[1], p[2], p[3]) + p[4] + p[5] * x),
    'tanh_stepdown_nobg': (3, lambda p, x: p[0] * half() * (1 - tm.tanh((x - p[1]) / p[2]))),
}
PK = {'gaussian': (3, lambda p, x: p[0] * unit_g(x, p[1], p[2])),
      'lorentzian': (3, lambda p, x: p[0] * unit_l(x, p[1], p[2])),
      'pvoigt': (4, lambda p, x: p[0] * pv(x, p[1], p[2], p[3])),
      'split_pvoigt': (6, lambda p, x: p[0] * spv(x, p[1], p[2], p[3], p[4], p[5]))}


def parms(v, m, pos):
    p = [v.reals(f'p{k}') for k in range(m)]
    return p, snp.asarray(np.array(p, dtype=object)), [lt(num(0), p[k]) for k in pos]


def grid(v):
    n = v.dim('n')
    x = v.array('x', (n,))
    return x, [le(num(1, 'I'), n), le(num(0, 'I'), I), lt(I, n)]


@check.obligations('one-dimensional peaks follow their closed forms at every point of any grid', [P + k for k in SHAPES] + [P + '_unit_gaussian', P + '_unit_lorentzian', P + '_unit_pvoigt1d'])
def _(v):
    for name, (m, want) in SHAPES.items():
        f = v.lift(P + name)
        p, pa, hy = parms(v, m, [2])
        x, hx = grid(v)
        for o in v.run(lambda: f(pa, x), hy + hx):
            v.prove(f'{name}: value', hy + hx + o.pc, eq(L(o.value.el((I,))), want(p, x.el((I,)))))
            v.require(f'{name}: one value per point', len(o.value.shape) == 1 and tm.tonum(o.value.shape[0]) is tm.tonum(x.shape[0]))


@check.obligations('the derivative matrices are the derivatives of the peak functions with respect to every parameter', [P + 'gaussian1d_deriv', P + 'lorentzian1d_deriv', P + '_gaussian1d_no_bg_deriv', P + '_lorentzian1d_no_bg_deriv', FP + 'eval_pk_deriv_1d'])
def _(v):
    for name in ('gaussian1d', 'lorentzian1d'):
        f, g = v.lift(P + name), v.lift(P + name + '_deriv')
        e = v.lift(FP + 'eval_pk_deriv_1d')
        p, pa, hy = parms(v, 5, [2])
        x, hx = grid(v)
        for o in v.run(lambda: (f(pa, x), g(pa, x), e(pa, x, None, name[:-2])), hy + hx):
            y, d, dt = o.value
            for k in range(5):
                want = diff(L(y.el((I,))), p[k])
                v.prove(f'{name}: derivative by parameter {k}', hy + hx + o.pc, eq(L(d.el((num(k, 'I'), I))), want))
                v.prove(f'{name}: Jacobian row by parameter {k}', hy + hx + o.pc, eq(L(dt.el((I, num(k, 'I')))), want))
    f, g = v.lift(FP + 'lin_fit_obj'), v.lift(FP + 'lin_fit_jac')
    a, b = v.reals('a'), v.reals('b')
    x, hx = grid(v)
    for o in v.run(lambda: (f(x, a, b), g(x, a, b)), hx):
        y, d = o.value
        for k, s in enumerate((a, b)):
            v.prove(f'linear background: derivative {k}', hx + o.pc, eq(L(d.el((I, num(k, 'I')))), diff(L(y.el((I,))), s)))


@check.obligations('split peaks use the left parameters below the centre and the right ones from it on', [P + 'split_pvoigt1d', P + '_split_pvoigt1d_no_bg', P + 'split_pvoigt2d_rot', P + '_split_pvoigt2d_no_bg', P + '_split_pvoigt2d_rot_no_bg', P + '_2d_coord_transform'])
def _(v):
    f = v.lift(P + 'split_pvoigt1d')
    p, pa, hy = parms(v, 8, [2, 3])
    x = v.reals('x', (2,))
    for o in v.run(lambda: f(pa, x), hy, max_paths=40):
        for k in range(2):
            v.prove(f'split pseudo-Voigt point {k}', hy + o.pc, eq(L(o.value[k]), p[0] * spv(L(x[k]), *p[1:6]) + p[6] + p[7] * L(x[k])))
    f = v.lift(P + 'split_pvoigt2d_rot')
    p, pa, hy = parms(v, 15, [3, 4, 5, 6])
    x, y = v.reals('x', (1, 1)), v.reals('y', (1, 1))
    X, Y = L(x[0, 0]), L(y[0, 0])
    c, s = tm.cos(p[11]), tm.sin(p[11])
    xp, yp = c * X + s * Y, -s * X + c * Y
    x0, y0 = c * p[1] + s * p[2], -s * p[1] + c * p[2]
    for o in v.run(lambda: f(pa, x, y), hy, max_paths=40):
        want = p[0] * spv(xp, x0, p[3], p[4], p[7], p[8]) * spv(yp, y0, p[5], p[6], p[9], p[10]) + p[12] + p[13] * X + p[14] * Y
        v.prove('rotated split pseudo-Voigt', hy + o.pc, eq(L(o.value[0, 0]), want))
        v.require('parameters untouched', all(L(a) is b or not isinstance(b, T) and a == b for a, b in zip(pa, p)))


@check.obligations('two- and three-dimensional Gaussians are products along their own axes with a plane background', [P + 'gaussian2d', P + 'gaussian2d_rot', P + 'gaussian3d'])
def _(v):
    n = v.dim('n')
    x, y, z = (v.array(q, (n,)) for q in 'xyz')
    hx = [le(num(1, 'I'), n), le(num(0, 'I'), I), lt(I, n)]
    X, Y, Z = (q.el((I,)) for q in (x, y, z))
    f = v.lift(P + 'gaussian2d')
    p, pa, hy = parms(v, 8, [3, 4])
    for o in v.run(lambda: f(pa, x, y), hy + hx):
        v.prove('two-dimensional', hy + hx + o.pc, eq(L(o.value.el((I,))), p[0] * unit_g(X, p[1], p[3]) * unit_g(Y, p[2], p[4]) + p[5] + p[6] * X + p[7] * Y))
    f = v.lift(P + 'gaussian2d_rot')
    p, pa, hy = parms(v, 9, [3, 4])
    c, s = tm.cos(p[5]), tm.sin(p[5])
    for o in v.run(lambda: f(pa, x, y), hy + hx):
        v.prove('rotated', hy + hx + o.pc, eq(L(o.value.el((I,))), p[0] * unit_g(c * X + s * Y, c * p[1] + s * p[2], p[3]) * unit_g(-s * X + c * Y, -s * p[1] + c * p[2], p[4]) + p[6] + p[7] * X + p[8] * Y))
        v.require('parameters untouched', all(L(a) is b or not isinstance(b, T) and a == b for a, b in zip(pa, p)))
    f = v.lift(P + 'gaussian3d')
    p, pa, hy = parms(v, 11, [4, 5, 6])
    for o in v.run(lambda: f(pa, x, y, z), hy + hx):
        v.prove('three-dimensional', hy + hx + o.pc, eq(L(o.value.el((I,))), p[0] * unit_g(X, p[1], p[4]) * unit_g(Y, p[2], p[5]) * unit_g(Z, p[3], p[6]) + p[7] + p[8] * X + p[9] * Y + p[10] * Z))


@check.obligations('multi-peak models are the sum of their peaks and one background', [P + 'mpeak_1d', P + '_mpeak_1d_no_bg', FP + 'fit_mpk_obj_1d', FP + 'fit_pk_obj_1d', FP + 'fit_pk_obj_1d_bnded'])
def _(v):
    f, g = v.lift(P + 'mpeak_1d'), v.lift(FP + 'fit_mpk_obj_1d')
    for pk, (m, one) in PK.items():
        for npk in (1, 2, 3):
            for bg, nb in ((None, 0), ('constant', 1), ('linear', 2), ('quadratic', 3)):
                if pk == 'split_pvoigt' and (npk > 2 or nb == 1):
                    continue
                p, pa, hy = parms(v, m * npk + nb, [])
                x = v.reals('x', (1,))
                X = L(x[0])
                hy = [lt(num(0), p[m * k + 2]) for k in range(npk)] + ([lt(num(0), p[m * k + 3]) for k in range(npk)] if m == 6 else [])
                want = sum_([one(p[m * k:m * k + m], X) for k in range(npk)] + ([p[m * npk]] if nb else []) + ([p[m * npk + 1] * X] if nb > 1 else []) + ([p[m * npk + 2] * X * X] if nb > 2 else []))
                f0 = v.reals('f', (1,))
                for o in v.run(lambda: (f(pa, x, pk, npk, bg), g(pa, x, f0, pk, npk, bg)), hy, max_paths=60):
                    v.prove(f'{pk} x {npk}, background {bg}', hy + o.pc, eq(L(o.value[0][0]), want))
                    v.prove(f'{pk} x {npk}, background {bg}: residual', hy + o.pc, eq(L(o.value[1][0]), want - L(f0[0])))
    r, b = v.lift(FP + 'fit_pk_obj_1d'), v.lift(FP + 'fit_pk_obj_1d_bnded')
    for pk, (m, one) in PK.items():
        p, pa, hy = parms(v, m + 2, [2, 3] if m == 6 else [2])
        x, f0 = v.reals('x', (1,)), v.reals('f', (1,))
        w = v.reals('w')
        lb, ub = [v.reals(f'lb{k}') for k in range(m + 1)] + [None], [v.reals(f'ub{k}') for k in range(m + 1)] + [None]
        want = one(p[:m], L(x[0])) + p[m] + p[m + 1] * L(x[0]) - L(f0[0])
        hy = hy + [lt(num(0), w)] + [le(a, c) for a, c in zip(lb[:-1], ub[:-1])]
        for o in v.run(lambda: r(pa, x, f0, pk), hy, max_paths=200):
            v.prove(f'{pk}: residual', hy + o.pc, eq(L(o.value[0]), want))
        for o in v.run(lambda: b(pa, x, f0, pk, w, lb, ub), hy, max_paths=200):
            v.prove(f'{pk}: bounded residual', hy + o.pc, eq(L(o.value[0]), want))
            for k in range(m + 1):
                pen = L(o.value[1 + k])
                v.prove(f'{pk}: penalty {k} is zero inside the bounds', hy + o.pc, implies(and_(le(lb[k], p[k]), le(p[k], ub[k])), eq(pen, num(0))))
                v.prove(f'{pk}: penalty {k} below', hy + o.pc, implies(lt(p[k], lb[k]), eq(pen, w * (lb[k] - p[k]))))
                v.prove(f'{pk}: penalty {k} above', hy + o.pc, implies(lt(ub[k], p[k]), eq(pen, w * (p[k] - ub[k]))))
            v.prove(f'{pk}: unbounded parameter', hy + o.pc, eq(L(o.value[m + 2]), num(0)))


@check.obligations('mixing of the pseudo-Voigt: the effective width and fraction of Thompson, Cox and Hastings, fraction within 0 and 1', [P + '_mixing_factor_pv', W + '_mixing_factor_pv', 'hexrd.core.fitting.utils:_mixing_factor_pv'])
def _(v):
    for name in (P, W, 'hexrd.core.fitting.utils:'):
        f = v.lift(name + '_mixing_factor_pv')
        g, l = v.reals('g'), v.reals('l')
        hy = [lt(num(0), g), le(num(0), l)]
        for o in v.run(lambda: f(g, l), hy, max_paths=20):
            e, w = o.value
            e = L(e)
            v.prove(f'{name}fraction is at most one', hy + o.pc, le(e, num(1)))
            v.prove(f'{name}fraction is not negative', hy + o.pc, le(num(0), e))
            whole = g ** 5 + num('2.69269') * g ** 4 * l + num('2.42843') * g ** 3 * l ** 2 + num('4.47163') * g ** 2 * l ** 3 + num('0.07842') * g * l ** 4 + l ** 5
            v.prove(f'{name}effective width', hy + o.pc, eq(L(w), whole ** num('0.2')))
            q = l / L(w)
            raw = num('1.36603') * q - num('0.47719') * q ** 2 + num('0.11116') * q ** 3
            v.prove(f'{name}fraction', hy + o.pc, eq(e, ite(lt(raw, num(0)), num(0), ite(lt(num(1), raw), num(1), raw))))


@check.runtime('pink-beam profiles are the convolutions of a Gaussian or Lorentzian with their source profile, at unit height or area', [
    m + k for m in (P, W, 'hexrd.core.fitting.utils:') for k in ('_gaussian_pink_beam', '_lorentzian_pink_beam')] + [m + k for m in (P, W) for k in ('_gaussian_exponential', '_lorentzian_exponential', '_gaussian_heating', '_lorentzian_heating')], n=30, thorough=10)
def _(t):
    from hexrd.core.fitting import peakfunctions as pf, utils as fu
    from hexrd.powder.wppf import peakfunctions as wp
    from scipy.integrate import quad

    def conv(core, src, lo, hi, x, pts):
        return np.array([quad(lambda u: src(u) * core(q - u), lo, hi, points=sorted(z for z in {0., q, *pts} if lo < z < hi), limit=400)[0] for q in x])
    for k in t.cases():
        x0 = float(t.rng.uniform(5, 40))
        w = float(t.rng.uniform(.05, .4))
        x = x0 + np.array([-1.9, -.7, -.2, -.05, 0., .04, .3, .8, 1.7]) * float(t.rng.uniform(.5, 1.5))
        d = x - x0
        G = lambda u: np.exp(-u * u / 2 / w / w) / w / np.sqrt(2 * np.pi)
        Lz = lambda u: w / 2 / np.pi / (u * u + w * w / 4)
        L2 = lambda u: w / np.pi / (u * u + w * w)
        a, b = (float(q) for q in t.rng.uniform(.8, 6, 2))
        src = lambda u: a * b / (a + b) * (np.exp(a * u) if u < 0 else np.exp(-b * u))
        data = dict(x0=x0, width=w, alpha=a, beta=b, x=x)
        g = conv(G, src, -30, 30, d, [])
        l = conv(Lz, src, -30, 30, d, [])
        t.close(wp._gaussian_pink_beam(a, b, w, x0, x), g, 'back-to-back exponentials, Gaussian', rtol=3e-4, atol=1e-4, **data)
        t.close(wp._lorentzian_pink_beam(a, b, w, x0, x), l, 'back-to-back exponentials, Lorentzian', rtol=3e-4, atol=1e-4, **data)
        A = float(t.rng.uniform(.5, 20))
        p = np.array([A, x0, a, b, w])
        t.close(pf._gaussian_pink_beam(p, x), A * g / g.max(), 'single peak, Gaussian', rtol=3e-4, atol=1e-4 * A, **data)
        t.close(pf._lorentzian_pink_beam(p, x), A * l / l.max(), 'single peak, Lorentzian', rtol=3e-4, atol=1e-4 * A, **data)
        t.close(fu._gaussian_pink_beam(p, x), A * g, 'spectrum peak, Gaussian', rtol=3e-4, atol=1e-4 * A, **data)
        fl = fu._lorentzian_pink_beam(p, x)
        t.close(fl / fl.max(), l / l.max(), 'spectrum peak, Lorentzian', rtol=3e-4, atol=1e-4 * A, **data)
        tau = float(t.rng.uniform(.1, 1.2))
        src = lambda u: np.exp(-u / tau) / tau
        g, l = conv(G, src, 0, 40 * tau, d, []), conv(Lz, src, 0, 40 * tau, d, [])
        data = dict(x0=x0, width=w, tau=tau, x=x)
        t.close(wp._gaussian_exponential(tau, w, x0, x), g, 'exponential, Gaussian', rtol=3e-4, atol=1e-4, **data)
        t.close(pf._gaussian_exponential(np.array([1., x0, tau, w]), x), g, 'exponential single peak, Gaussian', rtol=3e-4, atol=1e-4, **data)
        for q in (wp._lorentzian_exponential(tau, w, x0, x), pf._lorentzian_exponential(np.array([1., x0, tau, w]), x)):
            t.close(np.abs(q), l, 'exponential, Lorentzian', rtol=3e-4, atol=1e-4, **data)
            t.expect(np.all(q > 0) or np.all(q < 0), 'exponential, Lorentzian: one sign', got=q, **data)
        s = float(t.rng.uniform(.1, 1.2))
        src = lambda u: np.exp(-u * u / 2 / s / s) / s / np.sqrt(2 * np.pi)
        g, l = conv(G, src, 0, 12 * s, d, []), conv(L2, src, 0, 12 * s, d, [])
        data = dict(x0=x0, width=w, sigma=s, x=x)
        t.close(wp._gaussian_heating(s, w, x0, x), g, 'half Gaussian, Gaussian', rtol=3e-4, atol=1e-4, **data)
        t.close(pf._gaussian_heating(np.array([1., x0, s, w]), x), g, 'half Gaussian single peak, Gaussian', rtol=3e-4, atol=1e-4, **data)
        for q in (wp._lorentzian_heating(s, w, x0, x), pf._lorentzian_heating(np.array([1., x0, s, w]), x)):
            t.close(q, l, 'half Gaussian, Lorentzian', rtol=3e-4, atol=1e-4, **data)


@check.runtime('exact peak data are recovered by the single- and multi-peak fits', [FP + 'fit_pk_parms_1d', FP + 'estimate_pk_parms_1d', FP + 'fit_mpk_parms_1d', FP + 'estimate_mpk_parms_1d', FP + 'calc_pk_integrated_intensities', FP + 'goodness_of_fit'], n=20, thorough=10)
def _(t):
    from hexrd.core.fitting import peakfunctions as pf, fitpeak as fp
    fun = dict(gaussian=pf.gaussian1d, lorentzian=pf.lorentzian1d, pvoigt=pf.pvoigt1d, split_pvoigt=pf.split_pvoigt1d)
    for k in t.cases():
        x = np.linspace(-3, 3, 241)
        bg = float(t.rng.choice([0., 3., 40., 300.]))
        A = float(t.rng.uniform(50, 500))
        x0, w = float(t.rng.uniform(-.5, .5)), float(t.rng.uniform(.4, .8))
        sl = float(t.rng.uniform(-.05, .05))
        for pk, q in (('gaussian', [A, x0, w, bg, sl]), ('lorentzian', [A, x0, w, bg, sl]), ('pvoigt', [A, x0, w, .6, bg, sl]), ('split_pvoigt', [A, x0, w, w * 1.3, .6, .5, bg, sl])):
            q = np.array(q)
            f = fun[pk](q, x)
            if pk in ('pvoigt', 'split_pvoigt') and bg < 1:
                continue        # (the soft bounds tie the background to its estimate)
            p0 = fp.estimate_pk_parms_1d(x, f, pk)
            p = fp.fit_pk_parms_1d(p0, x, f, pk)
            t.close(fun[pk](p, x), f, f'{pk}: fitted curve', rtol=2e-3, atol=2e-3 * A, true=q, got_parameters=p)
            t.close(p[:3], q[:3], f'{pk}: amplitude, centre and width', rtol=2e-2, atol=1e-3, true=q)
        for pk, m in (('gaussian', 3), ('lorentzian', 3), ('pvoigt', 4), ('split_pvoigt', 6)):
            extra = {3: [], 4: [.5], 6: [w / 4, .5, .5]}[m]
            q = np.array([A, -1.0, w / 4] + extra + [A * .7, 1.1, w / 4] + extra + [bg, sl])
            f = pf.mpeak_1d(q, x, pk, 2, 'linear')
            p0, bnds = fp.estimate_mpk_parms_1d([-.995, 1.095], x, f, pk, 'linear', fwhm_guess=w / 4)
            t.expect(np.all(p0 >= bnds[0]) and np.all(p0 <= bnds[1]), f'{pk}: start inside the bounds', p0=p0, bounds=bnds)
            p = fp.fit_mpk_parms_1d(p0, x, f, pk, 2, 'linear', bnds=bnds)
            p = p[0] if isinstance(p, tuple) else p
            t.close(pf.mpeak_1d(p, x, pk, 2, 'linear'), f, f'{pk} x 2: fitted curve', rtol=2e-3, atol=2e-3 * A, true=q, got_parameters=p)
            ints = fp.calc_pk_integrated_intensities(q, x, pk, 2)
            from scipy.integrate import simpson
            one = [pf._mpeak_1d_no_bg(q[j * m:(j + 1) * m], x, pk, 1) for j in range(2)]
            t.close(ints, [simpson(o, x=x) for o in one], f'{pk}: integrated intensities', true=q)
        r, rw = fp.goodness_of_fit(f, f)
        t.expect(r == 0 and rw == 0, 'perfect fit has zero residual')


@check.runtime('mixing factor: effective width and fraction with the published coefficients', [m + '_mixing_factor_pv' for m in (P, W, 'hexrd.core.fitting.utils:')], n=30, thorough=10)
def _(t):
    from hexrd.core.fitting import peakfunctions as pf, utils as fu
    from hexrd.powder.wppf import peakfunctions as wp
    for k in t.cases():
        g, l = (float(q) for q in 10. ** t.rng.uniform(-3, 1, 2))
        if k % 6 == 0:
            g = g * 1e-3            # (a Lorentzian: the polynomial leaves the fraction above or at one)
        if k % 6 == 1:
            l = 0.
        w = (g ** 5 + 2.69269 * g ** 4 * l + 2.42843 * g ** 3 * l ** 2 + 4.47163 * g ** 2 * l ** 3 + .07842 * g * l ** 4 + l ** 5) ** .2
        r = l / w
        e = min(1., max(0., 1.36603 * r - .47719 * r ** 2 + .11116 * r ** 3))
        for m in (pf, fu, wp):
            t.close(np.array(m._mixing_factor_pv(g, l)), [e, w], 'fraction and width', rtol=1e-9, atol=1e-12, gaussian=g, lorentzian=l, module=m.__name__)


NPK = dict(gaussian=3, lorentzian=3, pvoigt=4, split_pvoigt=6, pink_beam_dcs=8, pink_beam_heating=6, pink_beam_exponential=7)


@check.runtime('starting values of the peak fits: one set per peak at the given positions, inside their bounds, then the background', [FP + 'estimate_mpk_parms_1d', FP + 'estimate_pk_parms_1d', FP + '_amplitude_guess'], n=10, thorough=10)
def _(t):
    from hexrd.core.fitting import fitpeak as fp, peakfunctions as pf
    dflt = dict(pink_beam_dcs=[fp.alpha0, fp.alpha1, fp.beta0, fp.beta1], pink_beam_heating=[fp.sigma0_DFLT, fp.sigma1_DFLT], pink_beam_exponential=[fp.tau0_DFLT, fp.tau1_DFLT, fp.tau2_DFLT])
    for k in t.cases():
        n = int(t.rng.integers(1, 4))
        x = np.linspace(4, 4 + 2. * n, 150 * n)
        pos = 4 + 2. * (np.arange(n) + .5) + t.rng.uniform(-.2, .2, n)
        amp, w = t.rng.uniform(20, 200, n), t.rng.uniform(.1, .2, n)
        c0, c1 = (float(q) for q in t.rng.uniform(-1, 3, 2))
        f = pf.mpeak_1d(np.r_[np.column_stack([amp, pos, w]).ravel(), c0, c1], x, 'gaussian', n, 'linear')
        wg = [None, .13, t.rng.uniform(.1, .2, n)][k % 3]
        cb = [.02, .07, t.rng.uniform(.01, .1, n)][int(t.rng.integers(3))]
        am, wm = ([.1, 10.], [.5, 2.]) if k % 2 else ([float(t.rng.uniform(.05, .8)), float(t.rng.uniform(1.2, 20))], [float(t.rng.uniform(.2, .8)), float(t.rng.uniform(1.3, 4))])
        kw = dict(fwhm_guess=wg, center_bnd=cb)
        if k % 2 == 0:
            kw.update(amp_lim_mult=am, fwhm_lim_mult=wm)
        ww = np.broadcast_to((x.max() - x.min()) / 20 / n if wg is None else wg, n)
        cc = np.broadcast_to(cb, n)
        for pk, m in NPK.items():
            line = None
            for nb, bg in enumerate(('constant', 'linear', 'quadratic', 'cubic'), 1):
                data = dict(peaks=pk, background=bg, positions=pos, widths=ww, amplitudes=amp)
                p0, (lb, ub) = fp.estimate_mpk_parms_1d(list(pos), x, f, pk, bg, **kw)
                if not t.expect(len(p0) == len(lb) == len(ub) == n * m + nb, 'number of starting values and bounds', got=(len(p0), len(lb), len(ub)), **data):
                    continue
                t.expect(np.all(lb <= p0) and np.all(p0 <= ub), 'start inside the bounds', got=p0, lower=lb, upper=ub, **data)
                t.expect(np.all(np.isneginf(lb[n * m:])) and np.all(np.isposinf(ub[n * m:])), 'background is free', lower=lb, upper=ub, **data)
                q, ql, qu = (z[:n * m].reshape(n, m) for z in (p0, lb, ub))
                t.close(q[:, 1], pos, 'positions', **data)
                t.close(np.stack([ql[:, 1], qu[:, 1]]), np.stack([pos - cc, pos + cc]), 'bounds of the positions', rtol=1e-12, **data)
                wid = [2] if m in (3, 4) else [2, 3] if pk == 'split_pvoigt' else [m - 2, m - 1]
                for c in wid:
                    t.close(np.stack([q[:, c], ql[:, c], qu[:, c]]), np.stack([ww, ww * wm[0], ww * wm[1]]), 'widths and their bounds', rtol=1e-12, **data)
                t.close(np.stack([ql[:, 0], qu[:, 0]]), np.stack([q[:, 0] * am[0], q[:, 0] * am[1]]), 'bounds of the amplitudes', rtol=1e-9, **data)
                t.expect(np.all(np.abs(q[:, 0] / amp - 1) < .5), 'amplitudes', got=q[:, 0], **data)
                for c in range(wid[-1] + 1, m):
                    t.close(np.stack([q[:, c], ql[:, c], qu[:, c]]), np.array([[.5] * n, [0.] * n, [1.] * n]), 'mixing and its bounds', **data)
                if pk in dflt:
                    t.close(q[:, 2:m - 2], np.tile(dflt[pk], (n, 1)), 'default profile parameters', **data)
                if bg == 'constant':
                    line = p0[:n * m]
                    t.expect(f.min() - 1 <= p0[-1] <= np.mean(f), 'constant background', got=p0[-1], **data)
                else:
                    t.close(p0[:n * m], line, 'the peaks do not depend on the background asked for', rtol=1e-12, **data)
                    z = p0[n * m] + p0[n * m + 1] * x
                    t.expect(np.max(np.abs(z - c0 - c1 * x)) < .25 * amp.max(), 'background line', got=p0[n * m:], want=(c0, c1), **data)
                    t.close(p0[n * m + 2:], np.zeros(nb - 2), 'no curvature to start with', **data)
        # single peaks, in the middle and at the edges
        one = np.linspace(-1, 1, 201)
        for c in (0., float(t.rng.uniform(-.4, .4)), -1., 1.):
            a, wd = float(t.rng.uniform(50, 500)), float(t.rng.uniform(.15, .3))
            f = pf.gaussian1d(np.array([a, c, wd, 5., .3]), one)
            ref = None
            for pk, m in NPK.items():
                p = fp.estimate_pk_parms_1d(one, f, pk)
                data = dict(peak=pk, centre=c, amplitude=a, width=wd, got=p)
                if not t.expect(len(p) == m + 2, 'number of starting values', **data):
                    continue
                t.expect(abs(p[1] - c) < .03, 'centre', **data)
                t.expect(abs(p[0] / a - 1) < .3, 'amplitude', **data)
                wid = [2] if m in (3, 4) else [2, 3] if pk == 'split_pvoigt' else [m - 2, m - 1]
                if abs(c) < .9:
                    t.expect(abs(p[wid[0]] / wd - 1) < .25, 'width', **data)
                t.expect(np.all(p[wid] > 0) and np.ptp(p[wid]) == 0, 'widths are positive and alike', **data)
                t.close(p[wid[-1] + 1:m], [.5] * (m - wid[-1] - 1), 'mixing', **data)
                if pk in dflt:
                    t.close(p[2:m - 2], dflt[pk], 'default profile parameters', **data)
                ref = p if ref is None else ref
                t.close(np.r_[p[:2], p[wid[0]], p[-2:]], np.r_[ref[:3], ref[-2:]], 'one estimate for every kind of peak', **data)


@check.runtime('residuals of every kind of peak are model less data (weighted for the spectrum profile), penalties outside the bounds', [FP + 'fit_pk_obj_1d', FP + 'fit_pk_obj_1d_bnded', FP + 'fit_mpk_obj_1d', FP + 'goodness_of_fit', FP + 'calc_pk_integrated_intensities'] + [P + k for k in ('tanh_stepdown_nobg', 'pink_beam_dcs', 'pink_beam_heating', 'pink_beam_exponential')], n=20, thorough=10)
def _(t):
    from hexrd.core.fitting import fitpeak as fp, peakfunctions as pf
    from scipy.integrate import simpson
    for k in t.cases():
        x = np.linspace(8, 12, 161)
        A, x0, w = float(t.rng.uniform(5, 50)), float(t.rng.uniform(9.5, 10.5)), float(t.rng.uniform(.1, .4))
        kinds = dict(gaussian=[A, x0, w], lorentzian=[A, x0, w], pvoigt=[A, x0, w, float(t.rng.uniform(0, 1))], split_pvoigt=[A, x0, w, w * 1.3, .3, .7],
                     pink_beam_dcs=[A, x0, 1.5, .2, 3., .1, w, w * .7], pink_beam_heating=[A, x0, .2, .01, w, w * .6], pink_beam_exponential=[A, x0, .1, .02, .03, w, w * .6])
        c0, c1 = 7., float(t.rng.uniform(-.3, .3))
        f0 = t.rng.uniform(1, 60, len(x))
        for pk, q in kinds.items():
            base = getattr(pf, '_' + {'pink_beam_dcs': 'pink_beam_dcs_no_bg', 'pink_beam_heating': 'pink_beam_heating_no_bg', 'pink_beam_exponential': 'pink_beam_exponential_no_bg'}.get(pk, pk + '1d_no_bg'))
            q = np.array(q)
            data = dict(peak=pk, parameters=q)
            f = base(q, x) + c0 + c1 * x
            p = np.r_[q, c0, c1]
            call = 'dcs_pinkbeam' if pk == 'pink_beam_dcs' else pk
            wt = 1 / np.sqrt(f0) if pk == 'pink_beam_dcs' else 1.
            keep = p.copy(), f0.copy()
            t.close(fp.fit_pk_obj_1d(p, x, f0, call), (f - f0) * wt, 'residual', rtol=1e-9, atol=1e-9, **data)
            lb = [z - 1 for z in p]
            ub = [z + 1 for z in p]
            j = int(t.rng.integers(len(p)))
            side = int(t.rng.integers(2))
            if side:
                lb[j] = p[j] + .4
                ub[j] = p[j] + 1.
            else:
                ub[j] = p[j] - .4
                lb[j] = p[j] - 1.
            if j != 0:
                lb[0] = ub[0] = None
            pen = np.zeros(len(p))
            pen[j] = .4 * 9
            got = fp.fit_pk_obj_1d_bnded(p, x, f0, call, 9., lb, ub)
            t.close(got, np.r_[f - f0, pen], 'bounded residual', rtol=1e-9, atol=1e-9, **data)
            t.expect(np.array_equal(p, keep[0]) and np.array_equal(f0, keep[1]), 'inputs unchanged', **data)
            two = np.r_[q, q]
            two[len(q) + 1] = x0 - .8
            two[len(q)] = .6 * A
            parts = [base(two[:len(q)], x), base(two[len(q):], x)]
            t.close(fp.fit_mpk_obj_1d(np.r_[two, c0, c1], x, f0, pk, 2, 'linear'), parts[0] + parts[1] + c0 + c1 * x - f0, 'residual of two peaks', rtol=1e-9, atol=1e-8, **data)
            three = np.r_[two, q]
            three[2 * len(q) + 1] = x0 + .9
            parts.append(base(three[2 * len(q):], x))
            t.close(fp.calc_pk_integrated_intensities(np.r_[three, c0, c1], x, pk, 3), [simpson(z, x=x) for z in parts], 'areas of three peaks', rtol=1e-9, **data)
        q = np.array([A, x0, w])
        t.close(fp.fit_pk_obj_1d(q, x, f0, 'tanh_stepdown'), pf.tanh_stepdown_nobg(q, x) - f0, 'residual of the step', rtol=1e-9, atol=1e-9, parameters=q)
        step = pf.tanh_stepdown_nobg(q, x)
        t.expect(np.all(np.diff(step) <= 1e-12) and abs(pf.tanh_stepdown_nobg(q, np.array([x0]))[0] - A / 2) < 1e-9 * A, 'a step down through half height at its centre', parameters=q)
        fit = f0 + t.rng.normal(0, 5, len(x))
        sgn = f0 * t.rng.choice([-1., 1.], len(x))
        for a, b in ((fit, f0), (fit, sgn)):
            want = sum((u - v) ** 2 for u, v in zip(a, b)) / sum(v * v for v in b), sum(abs(v) * (u - v) ** 2 for u, v in zip(a, b)) / sum(abs(v) ** 3 for v in b)
            t.close(np.array(fp.goodness_of_fit(a, b)), want, 'goodness of fit', rtol=1e-9)


@check.runtime('two-dimensional split peaks: each quadrant with the widths and mixing of its sides, rotated with the peak', [P + k for k in ('_split_pvoigt2d_no_bg', 'split_pvoigt2d_rot', '_split_pvoigt2d_rot_no_bg')], n=20, thorough=10)
def _(t):
    from hexrd.core.fitting import peakfunctions as pf

    def one(d, wl, wr, nl, nr):
        w, e = (wr, nr) if d >= 0 else (wl, nl)
        return e * 2. ** (-4 * d * d / w / w) + (1 - e) / (1 + 4 * d * d / w / w)
    for k in t.cases():
        p = np.r_[t.rng.uniform(10, 90), t.rng.uniform(-.5, .5, 2), t.rng.uniform(.5, 2, 4), t.rng.uniform(0, 1, 4)]
        x, y = t.rng.uniform(-3, 3, (2, 6, 7))
        x[0, 0], y[0, 0] = p[1], p[2]
        x[1, 1], y[2, 2] = p[1], p[2]
        x[3, 3], y[3, 3] = p[1] + .1, p[2] - .1
        want = np.array([[p[0] * one(x[i, j] - p[1], p[3], p[4], p[7], p[8]) * one(y[i, j] - p[2], p[5], p[6], p[9], p[10]) for j in range(7)] for i in range(6)])
        t.close(pf._split_pvoigt2d_no_bg(p, x, y), want, 'split peak in two dimensions', rtol=1e-9, atol=1e-9, parameters=p)
        th = float(t.rng.uniform(-2, 2))
        c, s = np.cos(th), np.sin(th)
        dx, dy = x - p[1], y - p[2]
        u, w = c * dx + s * dy, -s * dx + c * dy
        if k % 2:
            u[0, 0] = w[0, 0] = 0.
        ok = (np.abs(u) > 1e-9) & (np.abs(w) > 1e-9)
        alt = [np.array([[p[0] * one(a[i, j], p[3], p[4], p[7], p[8]) * one(b[i, j], p[5], p[6], p[9], p[10]) for j in range(7)] for i in range(6)]) for a, b in ((u, w), (c * dx - s * dy, s * dx + c * dy))]
        r = np.r_[p, th]
        got = pf._split_pvoigt2d_rot_no_bg(r.copy(), x, y)
        near = [np.allclose(got[ok], z[ok], rtol=1e-8, atol=1e-9) for z in alt]
        t.expect(any(near), 'rotated split peak', parameters=r, got=got, want=alt[0])
        bg = t.rng.uniform(-1, 1, 3)
        t.close(pf.split_pvoigt2d_rot(np.r_[r, bg], x, y), got + bg[0] + bg[1] * x + bg[2] * y, 'plane background', rtol=1e-9, atol=1e-9, parameters=r)
