from .common import *
from .X01 import Cell, with_inv, gram, nondeg, symcell
from .X02 import rand_lp, make_cell
import numpy as np

check = Check('W01', assumptions=[
    'np.linalg.inv and np.linalg.det enter through their algebraic definition',
    'tabulated form factors and anomalous factors are data; phases are made from Material objects (not from files)'])
PH = 'hexrd.powder.wppf.phase:'
XT = 'hexrd.powder.wppf.xtal:'
SP = 'hexrd.powder.wppf.spectrum:'


@check.obligations('spacings and angles of a list of reflections', [XT + '_calc_dspacing', XT + '_get_tth', PH + 'Material_LeBail.getTTh'])
def _(v):
    f, g = v.lift(XT + '_calc_dspacing'), v.lift(XT + '_get_tth')
    m = v.reals('m', (3, 3))
    h = v.reals('h', (2, 3))
    lam = v.reals('lam')
    q = [dot([h[k, i] for i in range(3)], [dot([m[i, j] for j in range(3)], [h[k, j] for j in range(3)]) for i in range(3)]) for k in range(2)]
    hy = [lt(num(0), x) for x in q]
    for o in v.run(lambda: f(m, h), hy):
        for k in range(2):
            d = L(o.value[k])
            v.prove(f'spacing {k}', hy + o.pc, eq(d * d * q[k], num(1)))
            v.prove(f'spacing {k} positive', hy + o.pc, lt(num(0), d))
    d = v.reals('d', (2,))
    hd = [lt(num(0), d[k]) for k in range(2)] + [lt(num(0), lam)]
    seen = set()
    for o in v.run(lambda: g(d, lam), hd):
        t, ok = o.value
        for k in range(2):
            s = lam / (2 * d[k])
            if tm.isnan(L(t[k])) is TRUE:
                seen.add(0)
                v.prove(f'out of reach {k}', hd + o.pc, lt(2 * d[k], lam))
                v.prove(f'marked out of reach {k}', hd + o.pc, eq(L(ok[k]), num(0)))
            else:
                seen.add(1)
                v.prove(f'within reach {k}', hd + o.pc, le(lam, 2 * d[k]))
                v.prove(f'marked within reach {k}', hd + o.pc, eq(L(ok[k]), num(1)))
                v.prove(f'Bragg {k}', hd + o.pc + [le(s, num(1)), le(num(0), s)], eq(tm.sin(L(t[k]) / 2 * (PI / 180)), s))
    v.require('reflections in and out of reach', seen == {0, 1}, str(seen))


@check.obligations('phase matrices: metric, reciprocal metric and structure matrices belong together', [PH + 'Material_LeBail._calcrmt'])
def _(v):
    f = v.lift(PH + 'Material_LeBail._calcrmt')
    n = [v.reals(c) for c in ('a', 'b', 'c', 'alpha', 'beta', 'gamma')]
    six = n[:3] + [snp.radians(x) for x in n[3:]]
    hy = [lt(num(0), x) for x in six[:3]] + nondeg(six)
    R = v.reals('R', (3, 3))
    arg = {}

    def np_inv(m):
        arg['m'] = m
        return R

    C_ = type('C_', (), {})

    def go():
        c = C_()
        c.lparms = list(n)
        f(c)
        return c
    for o in with_inv(np_inv, lambda: v.run(go, hy, max_paths=60)):
        c = o.value
        h = hy + o.pc
        g = gram(six)
        for i in range(3):
            for j in range(3):
                v.prove(f'direct metric {i}{j}', h, eq(c.dmt[i, j], g[i][j]))
        v.eq_arrays('reciprocal metric is the inverse of the direct metric', h, arg['m'], c.dmt)
        v.require('reciprocal metric', c.rmt is R or all(x is y for x, y in zip(c.rmt.a.flat, R.a.flat)), '')
        det = g[0][0] * (g[1][1] * g[2][2] - g[1][2] * g[2][1]) - g[0][1] * (g[1][0] * g[2][2] - g[1][2] * g[2][0]) + g[0][2] * (g[1][0] * g[2][1] - g[1][1] * g[2][0])
        v.prove('volume^2 = det of the metric', h + [lt(num(0), det)], eq(c.vol * c.vol, det))
        ok = h + [lt(num(0), L(c.vol)), lt(num(0), det)]
        for i in range(3):
            for j in range(3):
                v.prove(f'structure matrix: dsm^T dsm = dmt {i}{j}', ok, eq(sum_([c.dsm[k, i] * c.dsm[k, j] for k in range(3)]), g[i][j]))
                v.prove(f'reciprocal structure matrix: rsm^T dsm = I {i}{j}', ok, eq(sum_([c.rsm[k, i] * c.dsm[k, j] for k in range(3)]), num(int(i == j))))


@check.obligations('changing space: transforms agree, lengths and dot products do not depend on the space', [PH + 'Material_Rietveld.TransSpace', PH + 'Material_LeBail.CalcDot', PH + 'Material_LeBail.CalcLength'])
def _(v):
    T_ = v.lift(PH + 'Material_Rietveld.TransSpace')
    dotf, len_ = v.lift(PH + 'Material_LeBail.CalcDot'), v.lift(PH + 'Material_LeBail.CalcLength')
    c0, hy = symcell(v)
    c = type('C_', (), {})()
    c.dmt, c.rmt, c.dsm, c.rsm = c0._dmt, c0._rmt, c0._dsm, c0._rsm
    u, w = v.reals('u', (3,)), v.reals('w', (3,))
    D = rows(c.dsm)
    for o in v.run(lambda: T_(c, u, 'd', 'c'), hy):
        for i in range(3):
            v.prove(f'direct to cartesian {i}', hy + o.pc, eq(o.value[i], dot(D[i], [u[k] for k in range(3)])))
    for a in 'drc':
        for b in 'drc'.replace(a, ''):
            for o in v.run(lambda: T_(c, T_(c, u, a, b), b, a), hy):
                v.eq_arrays(f'{a} to {b} and back', hy + o.pc, o.value, u)
            for e in 'drc'.replace(a, '').replace(b, ''):
                for o in v.run(lambda: (T_(c, T_(c, u, a, b), b, e), T_(c, u, a, e)), hy):
                    v.eq_arrays(f'{a} to {b} to {e}', hy + o.pc, o.value[0], o.value[1])
            for o in v.run(lambda: (dotf(c, u, w, a), dotf(c, T_(c, u, a, b), T_(c, w, a, b), b)), hy):
                v.prove(f'dot product in {a} and {b}', hy + o.pc, eq(L(o.value[0]), L(o.value[1])))
        for o in v.run(lambda: (len_(c, u, a), dotf(c, u, u, a)), hy):
            x, y = [L(q) for q in o.value]
            v.prove(f'length in {a}', hy + o.pc, implies(le(num(0), y), and_(eq(x * x, y), le(num(0), x))))


@check.obligations('extinction and absorption of a reflection', [XT + '_calc_extinction_factor', XT + '_calc_x_factor', XT + '_calc_bragg_factor', XT + '_calc_laue_factor', XT + '_calc_absorption_factor'])
def _(v):
    f, g = v.lift(XT + '_calc_extinction_factor'), v.lift(XT + '_calc_absorption_factor')
    t, F = v.reals('t', (2,)), v.reals('F', (2,))
    V, lam, K_, D, mu, phi = [v.reals(x) for x in ('V', 'lam', 'K', 'D', 'mu', 'phi')]
    hy = [lt(num(0), x) for x in (V, lam, K_, D)] + [lt(num(0), F[k]) for k in range(2)]
    hk = snp.asarray(np.zeros((2, 3)))
    for o in v.run(lambda: f(hk, t, V, lam, F, K_, D), hy):
        for k in range(2):
            x = F[k] * (K_ * lam * D / V) * (K_ * lam * D / V)
            th = t[k] / 2 * (PI / 180)
            s2, c2 = tm.sin(th) * tm.sin(th), tm.cos(th) * tm.cos(th)
            small = 1 - x / 2 + x * x / 4 - num(tm.Fraction(5, 48)) * x * x * x + num(tm.Fraction(7, 192)) * x * x * x * x
            large = tm.sqrt(2 / (PI * x)) * (1 - 1 / (8 * x) - num(tm.Fraction(3, 128)) / (x * x) - num(tm.Fraction(15, 1024)) / (x * x * x))
            bragg = s2 / tm.sqrt(1 + x)
            for tag, cond, el in (('weak', le(x, num(1)), small), ('strong', lt(num(1), x), large)):
                h = hy + o.pc + [cond, lt(num(0), x)]
                v.prove(f'extinction {tag} {k}', h, eq(L(o.value[k]), bragg + el * c2))
    hm = [lt(num(0), mu), lt(num(0), lam), eq(phi, num(0))]
    for o in v.run(lambda: g(mu, t, num(0, 'R'), lam), hm):
        for k in range(2):
            v.prove(f'absorption along the beam {k}', hm + o.pc, eq(L(o.value[k]), tm.exp(-(mu * lam) / tm.cos(t[k] / 2 * (PI / 180)))))


def spec(v, nm, n, x=None, **kw):
    C = v.lift(SP + 'Spectrum')
    s = object.__new__(C)
    s.__dict__.update(dict(_x=v.array(nm + 'x', (n,)) if x is None else x, _y=v.array(nm + 'y', (n,)), name=nm, offset=v.reals(nm + 'o'), _scaling=v.reals(nm + 's'), smoothing=0, bkg_Spectrum=None), **kw)
    return s


@check.obligations('arithmetic of spectra on one grid is point by point', [SP + 'Spectrum.__add__', SP + 'Spectrum.__sub__', SP + 'Spectrum.__rmul__', SP + 'Spectrum.data', SP + 'Spectrum.original_data', SP + 'Spectrum.scaling'])
def _(v):
    n, i = v.dim('n'), v.dim('i')
    hy = [le(num(1), n), le(num(0), i), lt(i, n)]
    a = spec(v, 'a', n)
    b = spec(v, 'b', n, a._x)
    A = a._scaling * a._y.el((i,)) + a.offset
    B = b._scaling * b._y.el((i,)) + b.offset
    k = v.reals('k')
    for tag, go, w in (('sum', lambda: a + b, A + B), ('difference', lambda: a - b, A - B), ('multiple', lambda: k * a, k * A)):
        for o in v.run(go, hy):
            x, y = o.value.data
            v.prove(f'{tag}: angles', hy + o.pc, eq(x.el((i,)), a._x.el((i,))))
            v.prove(f'{tag}: values', hy + o.pc, eq(y.el((i,)), w))
            v.prove(f'{tag}: length', hy + o.pc, eq(L(x.shape[0]), n))
    a.bkg_Spectrum = b
    for o in v.run(lambda: (a.data, a.original_data), hy):
        (x, y), (x0, y0) = o.value
        v.prove('background: angles', hy + o.pc, eq(x.el((i,)), a._x.el((i,))))
        v.prove('background: values', hy + o.pc, eq(y.el((i,)), A - B))
        v.prove('background: original values', hy + o.pc, eq(y0.el((i,)), A))
    a.bkg_Spectrum = None
    s = v.reals('s')

    def scaled():
        a.scaling = s
        return a.scaling, a.data[1]
    for o in v.run(scaled, hy):
        q, y = o.value
        v.prove('scaling is not negative', hy + o.pc, eq(L(q), ite(lt(s, num(0)), num(0, 'R'), s)))
        v.prove('scaled values', hy + o.pc, eq(y.el((i,)), ite(lt(s, num(0)), num(0, 'R'), s) * a._y.el((i,)) + a.offset))


SGS = [225, 227, 194, 166, 136, 62, 14, 2, 139, 205]


def make_material(rng, k, aniso=False):
    """a material of some space group with atoms in general and special places"""
    from hexrd.core.material.material import Material, _angstroms, _kev
    from hexrd.core.material.unitcell import _rqpDict
    s = SGS[k % len(SGS)]
    m = Material()
    m.name = f'mat-{k}'
    m.dmin = _angstroms(float(rng.uniform(1.2, 1.7)))
    m.beamEnergy = _kev(float(rng.uniform(20, 90)))
    lp = rand_lp(rng, s, .3)
    m.sgnum = s
    n = int(rng.integers(1, 4))
    Z = rng.choice([6, 8, 14, 26, 28, 29, 47, 79, 92], n, replace=False)
    pos = np.array([[0., 0, 0, 1.], [.5, .5, .5, float(rng.uniform(.3, 1))], list(rng.uniform(.05, .45, 3)) + [float(rng.uniform(.3, 1))]])[:n]
    U = rng.uniform(1e-3, 2e-2, n)
    if aniso:
        U = np.zeros((n, 6))
        U[:, :3] = rng.uniform(2e-3, 2e-2, (n, 3))
        U[:, 3:] = rng.uniform(-1e-3, 1e-3, (n, 3))
    m._atominfo, m._atomtype, m._charge, m._U = pos, Z.astype(int), ['0'] * n, U
    m._newUnitcell()
    m.latticeParameters = [lp[q] for q in _rqpDict[m.unitcell.latticeType][0]]
    for a in range(n):  # images that nearly coincide are one atom or two depending on a tolerance
        o = orbit(m, a)
        D = np.abs((o[:, None] - o[None] + .5) % 1 - .5).sum(-1) + np.eye(len(o))
        if D.min() < 5e-3:
            return make_material(rng, k, aniso)
    return m, lp


def ref_intensity(m, lp, hkl, mult, weight=1., lam=None):
    """|F|^2 by its definition"""
    from hexrd.core import constants as ct
    g = gmat(lp)
    gi = np.linalg.inv(g)
    lam = m.unitcell.wavelength if lam is None else lam
    out = np.zeros(len(hkl))
    for q, h in enumerate(hkl):
        s = 0.25 * h @ gi @ h  # (sin theta / lambda)^2 per square angstrom
        F = 0
        for a, Z in enumerate(m.unitcell.atom_type):
            el = ct.ptableinverse[Z]
            p = ct.scatfac[el]
            tab = m.unitcell.f_anomalous_data[a][:m.unitcell.f_anomalous_data_sizes[a]]
            ff = p[5] + sum(p[j] * np.exp(-p[j + 6] * s) for j in range(5)) + ct.fNT[el]
            ff = ff + np.interp(lam, tab[:, 0], tab[:, 1]) + ct.frel[el] - Z + 1j * np.interp(lam, tab[:, 0], tab[:, 2])
            U = m.unitcell.U[a]
            if np.ndim(U):
                st = np.sqrt(np.diag(gi))
                Um = np.array([[U[0], U[3], U[4]], [U[3], U[1], U[5]], [U[4], U[5], U[2]]])
                T = np.exp(-2 * np.pi ** 2 * (h * st) @ Um @ (h * st))
            else:
                T = np.exp(-8 * np.pi ** 2 * U * s)
            F = F + ff * T * m.unitcell.atom_pos[a, 3] * np.sum(np.exp(-2j * np.pi * orbit(m, a) @ h))
        out[q] = abs(F) ** 2
    return out * mult * weight, out


def orbit(m, a):
    r = []
    for g in m.unitcell.SYM_SG:
        x = (g[:3, :3] @ m.unitcell.atom_pos[a, :3] + g[:3, 3]) % 1
        if not any(np.all(np.abs((x - y + .5) % 1 - .5) < 1e-5) for y in r):
            r.append(x)
    return np.array(r)


def gmat(lp):
    a, b, c = lp[:3]
    ca, cb, cg = np.cos(np.radians(lp[3:]))
    return np.array([[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]])


def star(m, h):
    """distinct vectors equivalent to h under the Laue group or point group in reciprocal space"""
    return {tuple(int(round(x)) for x in np.linalg.inv(g[:3, :3]).T @ h) for g in m.unitcell.SYM_SG}


@check.runtime('phases carry the reflections, positions and intensities of their material', [PH + 'Material_LeBail', PH + 'Material_Rietveld', XT + '_calcxrsf', XT + '_calcxrayformfactor', XT + '_calcanomalousformfactor'], n=20)
def _(t):
    from hexrd.powder.wppf.phase import Material_LeBail, Material_Rietveld
    from hexrd.core.material.unitcell import _rqpDict
    for k in t.cases():
        rng = t.rng
        m, lp = make_material(rng, k, aniso=k % 4 == 3)
        d = dict(sgnum=m.sgnum, lparms=lp, case=k, atoms=m.unitcell.atom_type, positions=m.unitcell.atom_pos, U=m.unitcell.U, energy=m.beamEnergy.value)
        R = Material_Rietveld(material_obj=m)
        for nm, p in (('LeBail', Material_LeBail(material_obj=m)), ('Rietveld', R), ('LeBail of Rietveld', Material_LeBail(material_obj=R))):
            t.expect(p.name == f'mat_{k}', f'{nm}: name', got=p.name)
            t.expect(np.array_equal(p.hkls, m.planeData.getHKLs()), f'{nm}: reflections of the plane data', **d)
            lam = float(rng.uniform(.02, .3))
            tth = p.getTTh(lam)
            gi = np.linalg.inv(gmat(lp)) * 100
            dsp = 1 / np.sqrt(np.einsum('ij,jk,ik->i', p.hkls, gi, p.hkls))
            t.close(p.dsp, dsp, f'{nm}: spacings', rtol=1e-8, **d)
            t.close(p.dmt, gmat(lp) / 100, f'{nm}: metric', rtol=1e-8, atol=1e-12, **d)
            with np.errstate(invalid='ignore'):
                w = 2 * np.degrees(np.arcsin(lam / 2 / dsp))
            t.close(tth, w, f'{nm}: angles', rtol=1e-8, wavelength=lam, **d)
            t.expect(np.array_equal(p.wavelength_allowed_hkls, lam <= 2 * dsp), f'{nm}: reflections in reach of the wavelength', wavelength=lam, **d)
            # a strained lattice
            f = rng.uniform(.97, 1.03)
            q = np.array(p.lparms) * np.r_[[f] * 3, [1] * 3]
            p.lparms = q
            p._calcrmt()
            p.getTTh(lam)
            t.close(p.dsp, dsp * f, f'{nm}: spacings follow the lattice', rtol=1e-8, **d)
            p.lparms = q / np.r_[[f] * 3, [1] * 3]
            p._calcrmt()
            t.close(p.Required_lp([lp[q] for q in _rqpDict[m.unitcell.latticeType][0]]), lp, f'{nm}: lattice from its free parameters', **d)
            t.raises(ValueError, lambda: setattr(p, 'shkl', np.zeros(14)), 'fourteen strain terms')
        mult = np.array([len(star(m, h)) for h in R.hkls])
        t.expect(np.array_equal(R.multiplicity, mult), 'multiplicities', got=R.multiplicity, want=mult, **d)
        t.close(R.wavelength, m.unitcell.wavelength, 'wavelength', **d)
        wi = float(rng.uniform(.3, 1))
        a, b = R.CalcXRSF(R.wavelength, wi)
        w, raw = ref_intensity(m, lp, R.hkls, mult, wi)
        t.close(b, raw, 'structure factors', rtol=1e-4, atol=1e-4 * max(raw.max(), 1), **d)
        t.close(a, w, 'intensities carry multiplicity and weight', rtol=1e-4, atol=1e-4 * max(w.max(), 1), **d)
        lam = R.wavelength * 1.3
        t.close(R.CalcXRSF(lam, 1.)[1], ref_intensity(m, lp, R.hkls, mult, 1., lam)[1], 'structure factors at another wavelength', rtol=1e-4, atol=1e-4 * max(raw.max(), 1), **d)
        t.close(m.unitcell.CalcXRSF(R.hkls), raw, 'structure factors of the cell', rtol=1e-4, atol=1e-4 * max(raw.max(), 1), **d)
        for g in R.hkls[:3]:
            s = R.CalcStar(g, 'r')
            t.expect({tuple(int(round(x)) for x in y) for y in s} == star(m, g) and len(s) == len(star(m, g)), 'equivalent reflections', hkl=g, **d)
        u = rng.uniform(-2, 2, 3)
        for o in 'drc':
            for b in 'drc'.replace(o, ''):
                x = R.TransSpace(u, o, b)
                t.close(R.TransSpace(x, b, o), u, f'{o} to {b} and back', atol=1e-9, u=u, **d)
                t.close([R.CalcLength(x, b), R.CalcDot(x, x, b)], [R.CalcLength(u, o), R.CalcLength(u, o) ** 2], f'length in {o} and {b}', atol=1e-9, u=u, **d)
            t.raises(ValueError, lambda: R.TransSpace(u, o, 'x'), 'to an unknown space')
        t.raises(ValueError, lambda: R.TransSpace(u, 'x', 'd'), 'from an unknown space')
        t.raises(ValueError, lambda: R.CalcStar([1, 0, 0], 'c'), 'star in an unknown space')
        t.raises(ValueError, lambda: R.CalcLength(np.array([1., 0, 0]), 'x'), 'length in an unknown space')
        t.raises(ValueError, lambda: Material_LeBail(material_obj=3), 'not a material')


@check.runtime('extinction joins its two series, absorption attenuates', [XT + '_calc_extinction_factor', XT + '_calc_absorption_factor', PH + 'Material_Rietveld.calc_absorption', PH + 'Material_Rietveld.calc_extinction'], n=40)
def _(t):
    from hexrd.powder.wppf import xtal as xt
    from scipy.special import ive
    for k in t.cases():
        rng = t.rng
        n = int(rng.integers(1, 9))
        tth = rng.uniform(2, 120, n)
        x = np.exp(rng.uniform(-5, 5, n)) if k % 2 else 1 + rng.uniform(-1e-6, 1e-6, n)
        K_, V, lam, D = rng.uniform(.5, 2, 4)
        F = x / (K_ * lam * D / V) ** 2
        e = xt._calc_extinction_factor(np.zeros((n, 3)), tth, V, lam, F, K_, D)
        th = np.radians(tth / 2)
        t.close(e, np.sin(th) ** 2 / np.sqrt(1 + x) + np.cos(th) ** 2 * (ive(0, x) + ive(1, x)), 'extinction factor', atol=.012, x=x, tth=tth)
        a = float(rng.uniform(0, 3))
        t.close(xt._calc_absorption_factor(a, tth, 0., lam), np.exp(-a * lam / np.cos(th)), 'absorption along the beam', rtol=1e-9, a=a, tth=tth)
        phi = float(rng.uniform(3, 25)) * (1 if k % 2 else -1)
        c1, c2 = np.cos(th + np.radians(phi)), np.cos(th - np.radians(phi))
        ok = (np.abs(c2) > 2e-3) & (np.abs(c1) > 2e-3)
        with np.errstate(all='ignore'):
            w = (np.exp(-a * lam / c1) - np.exp(-a * lam / c2)) / (-a * lam * (1 - c1 / c2))
        t.close(xt._calc_absorption_factor(a, tth, phi, lam)[ok], w[ok], 'absorption of a tilted plate', rtol=1e-8, a=a, phi=phi, tth=tth)


@check.runtime('spectra: arithmetic, backgrounds, ranges, bins and files', [SP + 'Spectrum'], n=40)
def _(t):
    import h5py, os, tempfile
    from hexrd.powder.wppf.spectrum import Spectrum
    from scipy.ndimage import gaussian_filter1d
    for k in t.cases():
        rng = t.rng
        n = int(rng.integers(6, 40))
        x = np.sort(rng.uniform(5, 60, n)) if k % 2 else np.linspace(*np.sort(rng.uniform(5, 60, 2)), n)
        y = rng.uniform(0, 9, n)
        x0, y0 = x.copy(), y.copy()
        a = Spectrum(x, y, 'a')
        t.close(np.array(a.data), [x0, y0], 'data')
        sc, off = float(rng.uniform(.2, 3)), float(rng.uniform(-1, 1))
        a.scaling, a.offset = sc, off
        ya = sc * y0 + off
        t.close(np.array(a.data), [x0, ya], 'scaled and shifted data')
        t.close(np.array(a.original_data), [x0, ya], 'original data')
        same = Spectrum(x.copy(), rng.uniform(0, 9, n))
        lo, hi = x0[1] - 1e-3, x0[-2] + 1e-3
        xb = np.sort(np.r_[lo, hi, rng.uniform(lo, hi, int(rng.integers(1, 30)))])
        if k % 3 == 0:  # as many points in other places
            xb = np.sort(np.r_[lo, hi, rng.uniform(lo, hi, n - 2)])
        part = Spectrum(xb, rng.uniform(0, 9, len(xb)))
        inside = (x0 >= xb.min()) & (x0 <= xb.max())
        for tag, b, xs, yb in (('same grid', same, x0, same.y), ('other grid', part, x0[inside], np.interp(x0[inside], xb, part.y))):
            yw = ya[np.isin(x0, xs)]
            for op, got, w in (('sum', a + b, yw + yb), ('difference', a - b, yw - yb)):
                t.close(np.array(got.data), [xs, w], f'{op} on the {tag}')
            a.set_background(b)
            t.close(np.array(a.data), [xs, yw - yb], f'background on the {tag}')
            t.close(np.array(a.original_data), [x0, ya], 'original data have no background subtracted')
            a.reset_background()
            t.close(np.array(a.data), [x0, ya], 'background taken away again')
        far = Spectrum(np.array([100., 101, 102]), np.ones(3))
        t.raises(RuntimeError, lambda: a - far, 'ranges apart')
        t.raises(RuntimeError, lambda: a + far, 'ranges apart')
        f = float(rng.uniform(-2, 2))
        t.close(np.array((f * a).data), [x0, f * ya], 'multiple')
        u, w = np.sort(rng.uniform(4, 61, 2))
        s = (x0 > u) & (x0 < w)
        t.close(np.array(a.limit(u, w).data), [x0[s], ya[s]], 'limited range', range=(u, w))
        a.set_smoothing(1.5)
        t.close(np.array(a.data), [x0, gaussian_filter1d(ya, 1.5)], 'smoothed data')
        a.set_smoothing(0)
        t.expect(a == Spectrum(x0, ya) and not a == Spectrum(x0, ya + 1) and not a == 3, 'equality of spectra')
        t.close(np.array([x, y]), [x0, y0], 'operands left as they were')
        b = float(rng.uniform(.5, 4))
        r = a.rebin(b)
        idx = np.round(x0 / b)
        c0 = np.round(x0.min() / b)
        clear = np.abs(x0 / b - np.floor(x0 / b) - .5) > 1e-6
        if clear.all():
            t.expect(len(r.x) == np.round(x0.max() / b) - c0 + 1, 'bins cover the range', bin=b)
            t.close(r.x, (c0 + np.arange(len(r.x))) * b, 'bin centres', bin=b)
            with np.errstate(all='ignore'):
                w = np.array([ya[idx == c0 + q].mean() if np.any(idx == c0 + q) else np.nan for q in range(len(r.x))])
            t.close(r.y, w, 'mean of each bin', bin=b)
        if not k % 2:
            st = x0[1] - x0[0]
            q = int(rng.integers(1, 6))
            e = Spectrum(x0, y0).extend_to(x0[-1] + q * st, 2.5)
            t.close(np.array(e.data), [np.r_[x0, x0[-1] + st * np.arange(1, q + 1)], np.r_[y0, [2.5] * q]], 'extended upwards', atol=1e-9)
            e = Spectrum(x0, y0).extend_to(x0[0] - q * st, 2.5)
            t.close(np.array(e.data), [np.r_[x0[0] - st * np.arange(q, 0, -1), x0], np.r_[[2.5] * q, y0]], 'extended downwards', atol=1e-9)
            e = Spectrum(x0, y0).extend_to(x0[2], 2.5)
            t.close(np.array(e.data), [x0, y0], 'nothing to extend')
        z = Spectrum(x0, np.where(np.arange(n) % 3 == 0, np.nan, y0))
        keep = np.arange(n) % 3 != 0
        t.close(z.data_array, np.c_[x0[keep], y0[keep]], 'values without the undefined ones')
        z.nan_to_zero()
        t.close(z.data[1], np.where(keep, y0, 0), 'undefined values become zero')
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, 'sp.xy')
            a.save(fn, 'two columns')
            t.close(np.array(Spectrum.from_file(fn).data), [x0, y0], 'text file', rtol=1e-12)
            t.expect(Spectrum.from_file(fn).name == 'sp', 'name from the file')
            fn = os.path.join(tmp, 'sp.h5')
            with h5py.File(fn, 'w') as h:
                a.dump_hdf5(h, 'one')
                same.dump_hdf5(h, 'two')
                a.dump_hdf5(h, 'one')
            with h5py.File(fn) as h:
                t.close([h['Spectrum/one/tth'][()], h['Spectrum/one/intensity'][()]], [x0, ya], 'HDF5 file')
                t.close([h['Spectrum/two/tth'][()], h['Spectrum/two/intensity'][()]], [x0, same.y], 'second spectrum in the HDF5 file')
        a.data = (x0, y0 * 2)
        t.close(np.array(a.data), [x0, y0 * 2], 'new data start unscaled')
