from .common import *
from .geo import *
from .D01 import panel, make
from .G04 import rand_cyl, cyl_point
import numpy as np

check = Check('D04', assumptions=[
    'absorption lengths come from the tabulated attenuation data (X05); exp, sin, cos enter as real functions',
    'pixel angles and ray directions enter through their contracts (D01, G04)'])
D = 'hexrd.core.instrument.detector:Detector.'
X = 'hexrd.core.material.crystallography:'
PK = ('hexrd.core.instrument.physics_package:HEDPhysicsPackage', 'hexrd.core.instrument.planar_detector:PlanarDetector.calc_filter_coating_transmission',
      'hexrd.core.instrument.cylindrical_detector:CylindricalDetector.calc_filter_coating_transmission')


class Pack:
    """a physics package: symbolic thickness and absorption length per layer"""
    window_material = 'w'
    sample_material = 's'

    def __init__(s, v):
        s.sample_thickness, s.window_thickness = v.reals('ds'), v.reals('dw')
        s.sample_density, s.window_density = v.reals('rs'), v.reals('rw')
        s.ls, s.lw = v.reals('ls'), v.reals('lw')
        s.pinhole_thickness, s.pinhole_diameter = v.reals('hp'), v.reals('dp')
        s.hy = [lt(num(0), x) for x in (s.ls, s.lw)]

    def sample_absorption_length(s, e):
        return s.ls

    def window_absorption_length(s, e):
        return s.lw


def far(x):
    return lt(num(tm.Fraction(1, 100)), x)


@check.obligations('polarization and Lorentz factors', [X + 'polarization_factor', X + 'lorentz_factor', D + 'polarization_factor', D + 'lorentz_factor'])
def _(v):
    f, g = v.lift(X + 'polarization_factor'), v.lift(X + 'lorentz_factor')
    tth, eta = v.reals('tth', (2,)), v.reals('eta', (2,))
    fh, fv = v.reals('fh'), v.reals('fv')
    c2 = [tm.cos(tth[i]) * tm.cos(tth[i]) for i in range(2)]
    for o in v.run(lambda: f(tth, unpolarized=True), []):
        for i in range(2):
            v.prove(f'unpolarized {i}', o.pc, eq(o.value[i], half() * (1 + c2[i])))
    for o in v.run(lambda: f(tth, unpolarized=False, eta=eta, f_hor=fh, f_vert=fv), []):
        for i in range(2):
            # fraction of the field normal to the scattering direction: 1 - (k.E)^2 for each polarization
            kx = tm.sin(tth[i]) * tm.cos(eta[i])
            ky = tm.sin(tth[i]) * tm.sin(eta[i])
            v.prove(f'polarized {i}', o.pc, eq(o.value[i], fh * (1 - kx * kx) + fv * (1 - ky * ky)))
    for o in v.run(lambda: g(tth), []):
        for i in range(2):
            th = half() * tth[i]
            v.prove(f'lorentz {i}', o.pc + [not_(eq(tm.sin(th), num(0))), not_(eq(tm.cos(th), num(0)))], eq(o.value[i] * tm.cos(th) * tm.sin(th) * tm.sin(th), num(1)))
    # the panel method: both fractions non-negative and summing to one, pixel angles of the panel
    P = v.lift('hexrd.core.instrument.planar_detector:PlanarDetector')
    P.pixel_angles = lambda self, origin=None, bvec=None: (tth, eta)
    d = object.__new__(P)
    eps = num(tm.Fraction(2, 10 ** 8))
    for o in v.run(lambda: d.polarization_factor(fh, fv), [], allow_exc=True):
        bad = or_(lt(eps, fh + fv - 1), lt(fh + fv - 1, -eps), lt(fh, num(0)), lt(fv, num(0)))
        if o.exc is not None:
            v.prove('refused only for unphysical fractions', o.pc, or_(not_(eq(fh + fv, num(1))), lt(fh, num(0)), lt(fv, num(0))))
        else:
            v.prove('unphysical fractions are refused', o.pc, not_(bad))
            kx = tm.sin(tth[0]) * tm.cos(eta[0])
            ky = tm.sin(tth[0]) * tm.sin(eta[0])
            v.prove('panel value', o.pc, eq(o.value[0], fh * (1 - kx * kx) + fv * (1 - ky * ky)))


@check.obligations('transmission of flat layers: Beer-Lambert along the inclined path, mean over the depth of scattering', [
    D + n for n in ('calc_transmission_sample', 'calc_transmission_window', 'calc_transmission_generic', 'calc_transmission_phosphor',
                    'calc_compton_transmission', 'calc_compton_transmission_sample', 'calc_compton_transmission_window')])
def _(v):
    d, hy = panel(v, _rows=1, _cols=2)
    pk = Pack(v)
    sa, E = v.reals('seca'), v.reals('E')
    sb = v.reals('secb', (1, 2))
    hy = hy + pk.hy + [far(pk.sample_thickness), far(pk.window_thickness)]
    ex = tm.exp
    for o in v.run(lambda: d.calc_transmission_sample(sa, sb, E, pk), hy):
        x = pk.sample_thickness / pk.ls
        for i in range(2):
            v.prove(f'sample {i}', hy + o.pc + [not_(eq(sb[0, i], sa))], eq(o.value[0, i] * x * (sb[0, i] - sa), ex(-x * sa) - ex(-x * sb[0, i])))
    for o in v.run(lambda: d.calc_transmission_window(sb, E, pk), hy):
        for i in range(2):
            v.prove(f'window {i}', hy + o.pc, eq(o.value[0, i], ex(-pk.window_thickness / pk.lw * sb[0, i])))
    th, al, L_, U = v.reals('th'), v.reals('al'), v.reals('ro'), v.reals('U0')
    h2 = hy + [far(th), lt(num(0), al), lt(num(0), L_)]
    for o in v.run(lambda: d.calc_transmission_generic(sb, th, al), h2):
        for i in range(2):
            v.prove(f'layer {i}', h2 + o.pc, eq(o.value[0, i], ex(-th / al * sb[0, i])))
    for o in v.run(lambda: d.calc_transmission_phosphor(sb, th, L_, al, E, U), h2):
        for i in range(2):
            a = sb[0, i] + 1 / (al * L_)
            v.prove(f'phosphor {i}', h2 + o.pc + [lt(num(0), sb[0, i])], eq(o.value[0, i] * a, U * E * (1 - ex(-al * th * a))))
    # Compton: per-pixel attenuation on the way out
    lo = v.reals('lo', (1, 2))
    P = type(d)
    seen = []

    def att(self, energy, density, formula, origin=None):
        seen.append((energy, density, formula))
        return lo
    P.pixel_compton_attenuation_length = att
    hl = hy + [lt(num(0), lo[0, i]) for i in range(2)]
    for layer, t, l in (('sample', pk.sample_thickness, pk.ls), ('window', pk.window_thickness, pk.lw)):
        for o in v.run(lambda: d.calc_compton_transmission(sa, sb, E, pk, layer), hl):
            for i in range(2):
                x1, x2 = t / l * sa, t / lo[0, i] * sb[0, i]
                v.prove(f'compton {layer} {i}', hl + o.pc + [not_(eq(x1, x2))], eq(o.value[0, i] * (x2 - x1), ex(-x1) - ex(-x2)))
        v.require(f'compton {layer}: own density and material', all(m == layer[0] and r is (pk.sample_density if layer == 'sample' else pk.window_density) for _, r, m in seen))
        seen.clear()
    for o in v.run(lambda: d.calc_compton_transmission_sample(sa, E, pk), hl):
        v.prove('compton, unscattered through the sample', hl + o.pc, eq(L(o.value), ex(-pk.sample_thickness / pk.ls * sa)))
    for o in v.run(lambda: d.calc_compton_transmission_window(sb, E, pk), hl):
        for i in range(2):
            v.prove(f'compton, window {i}', hl + o.pc, eq(o.value[0, i], ex(-pk.window_thickness / lo[0, i] * sb[0, i])))


@check.obligations('absent layers transmit everything', [
    D + n for n in ('calc_transmission_sample', 'calc_transmission_window', 'calc_transmission_generic', 'calc_compton_transmission', 'calc_compton_transmission_window', 'calc_effective_pinhole_area')])
def _(v):
    d, hy = panel(v, _rows=1, _cols=2)
    sa, E = v.reals('seca'), v.reals('E')
    sb = v.reals('secb', (1, 2))
    pk = Pack(v)
    pk.sample_thickness = pk.window_thickness = pk.pinhole_thickness = num(0)
    type(d).pixel_compton_attenuation_length = lambda self, *a, **k: sb
    hl = hy + pk.hy
    nw = Pack(v)
    nw.window_material = None
    for name, f in (('sample', lambda: d.calc_transmission_sample(sa, sb, E, pk)), ('window', lambda: d.calc_transmission_window(sb, E, pk)),
                    ('no window', lambda: d.calc_transmission_window(sb, E, nw)),
                    ('generic', lambda: d.calc_transmission_generic(sb, num(0), pk.ls)), ('compton sample', lambda: d.calc_compton_transmission(sa, sb, E, pk, 'sample')),
                    ('compton window', lambda: d.calc_compton_transmission(sa, sb, E, pk, 'window')), ('compton no window', lambda: d.calc_compton_transmission(sa, sb, E, nw, 'window')),
                    ('compton window path', lambda: d.calc_compton_transmission_window(sb, E, nw)), ('pinhole', lambda: d.calc_effective_pinhole_area(pk))):
        for o in v.run(f, hl):
            for i in range(2):
                v.prove(f'{name} {i}', hl + o.pc, eq(o.value[0, i], num(1)))


@check.obligations('pinhole: opening angle measured from the pinhole axis on the beam side, open area of two displaced discs', [D + 'calc_effective_pinhole_area'])
def _(v):
    d, hy = panel(v, _rows=1, _cols=1)
    pk = Pack(v)
    beta = v.reals('beta', (1, 1))
    seen = []
    type(d).pixel_angles = lambda self, origin=None, bvec=None: (seen.append(bvec), (beta.copy(), beta.copy()))[1]
    b = d._bvec
    far_ = [far(pk.pinhole_thickness), far(pk.pinhole_diameter), not_(eq(b[2], num(0)))]
    for o in v.run(lambda: (seen.clear(), d.calc_effective_pinhole_area(pk), seen[-1])[1:], hy + far_, max_paths=64):
        h = hy + far_ + o.pc
        val, bv = o.value
        if not v.require('pixel angles asked for a direction', bv is not None):
            return
        v.prove('axis', h, and_(eq(bv[0], num(0)), eq(bv[1], num(0))))
        v.prove('on the side the beam travels to', h, eq(bv[2], ite(lt(num(0), b[2]), num(1), num(-1))))
        j = pk.pinhole_thickness / pk.pinhole_diameter * tm.tan(beta[0, 0])
        inside = [lt(num(tm.Fraction(1, 1000)), j), lt(j, num(1))]
        x = val[0, 0]
        v.prove('open area', h + inside, eq(2 * x, tm.atan(tm.sqrt(1 / (j * j) - 1)) - j * tm.sqrt(1 - j * j)))


@check.obligations('momentum transfer and Compton energy of every pixel', [D + 'pixel_Q', D + 'pixel_compton_energy_loss', 'hexrd.core.constants:keVToAngstrom'])
def _(v):
    d, hy = panel(v, _rows=1, _cols=2)
    tth, org = v.reals('tth', (1, 2)), v.reals('org', (3,))
    zero = [num(0)] * 3
    seen = []
    type(d).pixel_angles = lambda self, origin=None, bvec=None: (seen.append(origin), (tth, tth))[1]
    E = v.reals('E')
    import hexrd.core.constants as ct
    hc = num(tm.Fraction(str(float(ct.keVToAngstrom(1.0)))))
    v.require('wavelength of 1 keV', abs(float(ct.keVToAngstrom(1.0)) - 12.39841984) < 1e-6)
    hy = hy + [lt(num(0), E)]
    for o in v.run(lambda: d.pixel_Q(E, origin=org), hy):
        for i in range(2):
            # both pixels share one wavelength: Q0 sin1 = Q1 sin0, and Q / (4 pi sin) = E / hc
            v.prove(f'Q {i}', hy + o.pc, eq(o.value[0, i] * tm.sin(half() * tth[0, 1 - i]), o.value[0, 1 - i] * tm.sin(half() * tth[0, i])))
    v.require('Q: rays from the origin asked for', all(x is org for x in seen))
    seen.clear()
    for o in v.run(lambda: d.pixel_compton_energy_loss(E, origin=org), hy):
        for i in range(2):
            k = 1 - tm.cos(tth[0, i])
            mc2 = num(tm.Fraction(str(float(ct.cRestmasskeV))))
            v.prove(f'Compton energy {i}', hy + o.pc, eq(o.value[0, i] * (mc2 + E * k), E * mc2))
    v.require('Compton: rays from the origin asked for', all(x is org for x in seen))


def pack(rng):
    from hexrd.core.instrument.physics_package import HEDPhysicsPackage
    k = dict(sample_material='Fe', sample_density=7.87, sample_thickness=float(rng.choice([0., rng.uniform(1, 60)])),
             window_material='LiF', window_density=2.64, window_thickness=float(rng.choice([0., rng.uniform(10, 200)])),
             pinhole_material='Ta', pinhole_density=16.65, pinhole_thickness=float(rng.uniform(10, 200)), pinhole_diameter=float(rng.uniform(100, 500)))
    return HEDPhysicsPackage(**k)


def att(rho, formula, E, col=1):
    from hexrd.core.material.utils import calculate_linear_absorption_length as lin, calculate_energy_absorption_length as en
    return (lin if col == 1 else en)(rho, formula, np.array([E]))[0]


@check.runtime('filters, coating, phosphor, sample, window and pinhole on planar and cylindrical panels', [
    *PK, D + 'calc_physics_package_transmission', D + 'calc_compton_physics_package_transmission', D + 'calc_compton_window_transmission',
    D + 'calc_effective_pinhole_area', D + 'pixel_solid_angles', D + 'lorentz_factor', D + 'polarization_factor', D + 'pixel_compton_attenuation_length'], n=40)
def _(t):
    import hexrd.core.constants as ct
    rng = t.rng
    for k in t.cases():
        cyl = k % 2
        d = rand_cyl(rng) if cyl else make(rng)
        if k % 4 > 1:
            turn_round(d)
        E = float(rng.uniform(8, 80))
        pk = pack(rng)
        d.filter.material, d.filter.density, d.filter.thickness = 'Ge', 5.32, float(rng.choice([0, rng.uniform(1, 50)]))
        d.coating.material, d.coating.density, d.coating.thickness = 'C10H8O4', 1.4, float(rng.choice([0, rng.uniform(1, 50)]))
        d.phosphor.thickness = float(rng.choice([0, rng.uniform(10, 300)]))
        I = dict(kind='cylinder' if cyl else 'plane', tilt=d.tilt, tvec=d.tvec, bvec=d.bvec, evec=d.evec, shape=d.shape, E=E, pk=pk.serialize())
        R = nrot(d.tilt)
        y, x = d.pixel_coords
        xy = np.c_[x.ravel(), y.ravel()]
        p = cyl_point(d, xy) if cyl else d.tvec + xy @ R[:, :2].T
        r = np.linalg.norm(p, axis=1)
        if cyl:
            th = xy[:, 0] / d.radius
            nrm = -(np.outer(np.sin(th), R[:, 0]) - np.outer(np.cos(th), R[:, 2]))
        else:
            nrm = np.tile(R[:, 2], (len(p), 1))
        u = p / r[:, None]
        inc = -(u * nrm).sum(1)
        sec = (1 / inc).reshape(d.shape)
        t.close(d.pixel_solid_angles, (d.pixel_area * np.abs(inc) / r ** 2).reshape(d.shape), 'solid angles', rtol=1e-9, **I)
        fc, ph = d.calc_filter_coating_transmission(E)
        ok = sec > 0
        w = np.exp(-(d.filter.thickness / att(5.32, 'Ge', E) + d.coating.thickness / att(1.4, 'C10H8O4', E)) * sec)
        t.close(fc[ok], w[ok], 'filter and coating', rtol=1e-8, atol=1e-12, **I)
        if d.phosphor.thickness == 0:
            w = np.ones(d.shape)
        else:
            mu = 1 / att(d.phosphor.density, d.phosphor.material, E, 2)
            a = sec + 1 / (mu * d.phosphor.readout_length)
            w = d.phosphor.pre_U0 * E * (1 - np.exp(-mu * d.phosphor.thickness * a)) / a
        t.close(ph[ok], w[ok], 'phosphor response', rtol=1e-8, atol=1e-12, **I)
        rs = nrot(rng.normal(size=3) * .2)
        n = rs @ [0, 0, np.sign(d.bvec[2])]
        sa, cb = 1 / (d.bvec @ n), (u @ n).reshape(d.shape)
        keep = cb > .051
        sb = 1 / cb
        xs, xw = pk.sample_thickness / att(7.87, 'Fe', E), pk.window_thickness / att(2.64, 'LiF', E)
        w = np.exp(-xw * sb)
        if xs:
            w = w * (np.exp(-xs * sa) - np.exp(-xs * sb)) / xs / (sb - sa)
        got = d.calc_physics_package_transmission(E, rs, pk)
        near = np.abs(sb - sa) < 1e-4
        t.close(got[keep & ~near], w[keep & ~near], 'sample and window', rtol=1e-6, atol=1e-12, **I)
        back = (cb < -.001) & np.full(d.shape, xs > 0 or xw > 0)
        t.expect(np.isnan(got[back]).all(), 'rays that leave through the back are masked', **I)
        beta = np.arccos(np.clip(u[:, 2] * np.sign(d.bvec[2]), -1, 1)).reshape(d.shape)
        fw = beta < np.pi / 2 - .01
        j = pk.pinhole_thickness / pk.pinhole_diameter * np.tan(beta)
        with np.errstate(all='ignore'):
            w = .5 * (np.arccos(j) - j * np.sqrt(1 - j * j))
        got = d.calc_effective_pinhole_area(pk)
        t.close(got[fw], w[fw], 'open area of the pinhole', rtol=1e-6, atol=1e-7, **I)
        tth = np.arccos(np.clip(u @ d.bvec, -1, 1)).reshape(d.shape)
        t.close(d.lorentz_factor() * np.cos(tth / 2) * np.sin(tth / 2) ** 2, np.ones(d.shape), 'Lorentz factor', rtol=1e-6, **I)
        RB = beam_frame(d.bvec, d.evec)
        f = rng.random()
        c = ((u @ RB) ** 2).reshape(d.shape + (3,))
        t.close(d.polarization_factor(f, 1 - f), f * (1 - c[..., 0]) + (1 - f) * (1 - c[..., 1]), 'polarization', rtol=1e-7, atol=1e-9, **I)
        t.close(d.polarization_factor(f, 1 - f, unpolarized=True), .5 * (1 + np.cos(tth) ** 2), 'unpolarized', rtol=1e-7, **I)
        org = rng.normal(size=3)
        v_ = (p - org) / np.linalg.norm(p - org, axis=1)[:, None]
        tth = np.arccos(np.clip(v_ @ d.bvec, -1, 1)).reshape(d.shape)
        t.close(d.pixel_Q(E, origin=org), 4 * np.pi * np.sin(tth / 2) * E / 12.398419843, 'momentum transfer', rtol=1e-5, **I)
        ce = E / (1 + E / 510.99895 * (1 - np.cos(tth)))
        t.close(d.pixel_compton_energy_loss(E, origin=org), ce, 'Compton energy', rtol=1e-6, **I)
        from hexrd.core.material.utils import calculate_linear_absorption_length as lin
        t.close(d.pixel_compton_attenuation_length(E, 2.64, 'LiF', origin=org), lin(2.64, 'LiF', ce.ravel()).reshape(d.shape), 'Compton attenuation length', rtol=1e-5, **I)
