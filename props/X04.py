from .common import *
from .X02 import rand_lp, make_cell
import numpy as np
import os
import tempfile

check = Check('X04', assumptions=[
    'numpy.roots returns roots of the polynomial it is given (external; the choice of the root is under contract)',
    'the largest power (1/3, 2/3, 5/2) laws are the real ones for positive bases'])
M = 'hexrd.core.material.material:Material'
J = 'hexrd.core.material.jcpds:JCPDS_extend'


def mat(v, C):
    m = object.__new__(C)
    s = {k: v.reals(k) for k in ('v0', 'k0', 'k0p', 'dk0dt', 'dk0pdt', 'alpha_t', 'dalpha_t_dt')}
    for k, x in s.items():
        setattr(m, k, x)
    return m, s


@check.obligations('volume, bulk modulus and its derivative at temperature: reference values at 298 K, thermal expansion exp of the integrated coefficient, linear moduli', [M + '.vt', M + '.kt', M + '.ktp', M + '.thermal_expansion', M + '.thermal_expansion_dt'])
def _(v):
    C = v.lift(M)
    T, S = v.reals('T'), v.reals('S')
    m, s = mat(v, C)
    hy = [lt(num(0), s['v0']), lt(num(0), s['k0'])]
    for o in v.run(lambda: (m.vt(), m.kt(), m.ktp(), m.vt(298), m.kt(298), m.ktp(298), m.vt(T), m.kt(T), m.ktp(T), m.kt(S), m.ktp(S)), hy):
        a = o.value
        h = hy + o.pc
        for k, (name, w) in enumerate((('volume', s['v0']), ('modulus', s['k0']), ('derivative', s['k0p']))):
            v.prove(f'{name} without a temperature', h, eq(a[k], w))
            v.prove(f'{name} at 298 K', h, eq(a[3 + k], w))
        # d ln V / dT = alpha + alpha' T
        v.prove('volume at temperature', h, eq(a[6], s['v0'] * tm.exp(s['alpha_t'] * (T - num(298)) + half() * s['dalpha_t_dt'] * (T * T - num(298) * num(298)))))
        v.prove('thermal expansion coefficient is the logarithmic derivative', h, eq(diff(L(a[6]), T), (s['alpha_t'] + s['dalpha_t_dt'] * T) * L(a[6])))
        v.prove('modulus at temperature', h, eq(a[7], s['k0'] + s['dk0dt'] * (T - num(298))))
        v.prove('derivative at temperature', h, eq(a[8], s['k0p'] + s['dk0pdt'] * (T - num(298))))


def with_vt(C, V, K, Kp):
    """Material whose temperature dependence is known by contract only"""
    class D(C):
        def vt(self, temperature=None):
            return V

        def kt(self, temperature=None):
            return K

        def ktp(self, temperature=None):
            return Kp
    return object.__new__(D)


@check.obligations('pressure of a volume: third-order Birch-Murnaghan in the volumes and moduli at that temperature', [M + '.calc_pressure'])
def _(v):
    C = v.lift(M)
    K, Kp, V, x = v.reals('K'), v.reals('Kp'), v.reals('V'), v.reals('x')
    m = with_vt(C, V, K, Kp)
    hy = [lt(num(0), V), lt(num(0), K), lt(num(0), x)]
    # volume given by its linear compression x = (V/v)^(1/3)
    for o in v.run(lambda: (m.calc_pressure(V / x ** 3), m.calc_pressure(V), m.calc_pressure()), hy):
        p, z, n = o.value
        h = hy + o.pc
        want = num('1.5') * K * (x ** 7 - x ** 5) * (num(1) + num('0.75') * (Kp - num(4)) * (x * x - num(1)))
        v.prove('Birch-Murnaghan', h, eq(p, want))
        v.prove('zero at the reference volume', h, eq(z, num(0)))
        v.prove('no volume means no pressure', h, eq(L(n), num(0)))


@check.obligations('volume of a pressure: inverse of the equation of state, on the branch through the reference volume', [M + '.calc_volume'])
def _(v):
    K, Kp, V, P = v.reals('K'), v.reals('Kp'), v.reals('V'), v.reals('P')
    r1, r2, neg = v.reals('r1'), v.reals('r2'), v.reals('r3')
    seen = {}

    def roots(p):
        p = snp.asarray(p)
        seen['p'] = [L(q) for q in p.a.reshape(-1)]
        return snp.asarray(np.array([r1, neg, r2], dtype=object))
    C = v.lift(M, new=True)
    snp.roots = roots       # contract of the dependency, for this obligation
    m = with_vt(C, V, K, Kp)
    hy = [lt(num(0), V), lt(num(0), K), lt(num(0), r1), lt(num(0), r2), lt(neg, num(0)), not_(eq(tm.absv(r1 - num(1)), tm.absv(r2 - num(1))))]
    try:
        outs = list(v.run(lambda: (m.calc_volume(P), m.calc_volume()), hy, max_paths=60))
    finally:
        del snp.roots
    for o in outs:
        h = hy + o.pc
        got, none = o.value
        v.prove('no pressure means the volume at temperature', h, eq(none, V))
        p = seen['p']
        n = len(p) - 1
        x = v.reals('x')
        poly = sum_([c * x ** (n - k) for k, c in enumerate(p)])
        al = num('0.75') * (Kp - num(4))
        want = num('1.5') * K * (x ** 7 - x ** 5) * (num(1) + al * (x * x - num(1))) - P
        v.prove('the polynomial vanishes exactly where the pressure is the one asked for', h, or_(eq(poly * num('1.5') * K, want), eq(poly, want), eq(poly * num(3) * K, num(2) * want)))
        near = ite(lt(tm.absv(r1 - num(1)), tm.absv(r2 - num(1))), r1, r2)
        v.prove('volume of the solution next to the reference', h, eq(got * near ** 3, V))


@check.obligations('lattice parameters at pressure and temperature: lengths scaled by one factor to the volume there, angles kept', [M + '.calc_lp_factor', M + '.calc_lp_at_PT', M + '.lparms0', M + '.pt_lp_factor'])
def _(v):
    C = v.lift(M)
    lp = v.reals('lp', (6,))
    vol, VP, v0 = v.reals('vol'), v.reals('VP'), v.reals('v0')

    class D(C):
        lparms = lp

        class unitcell:
            pass

        def calc_volume(self, pressure=None, temperature=None):
            return VP
    D.unitcell.vol = vol
    m = object.__new__(D)
    m.v0 = v0
    hy = [lt(num(0), q) for q in (vol, VP, v0)] + [lt(num(0), L(lp[k])) for k in range(3)]
    for o in v.run(lambda: (m.calc_lp_at_PT(1, 2), m.lparms0), hy):
        a, z = o.value
        h = hy + o.pc
        for k in range(3):
            v.prove(f'length {k}: volume at pressure and temperature', h, eq(L(a[k]) ** 3 * vol * num(1000), L(lp[k]) ** 3 * VP))
            v.prove(f'length {k} at the reference volume', h, eq(L(z[k]) ** 3 * vol * num(1000), L(lp[k]) ** 3 * v0))
            v.prove(f'angle {k}', h, and_(eq(a[3 + k], lp[3 + k]), eq(z[3 + k], lp[3 + k])))


@check.obligations('JCPDS cell volume: square root of the metric determinant', [J + '.calc_volume_unitcell'])
def _(v):
    C = v.lift(J)
    j = object.__new__(C)
    a, b, c, al, be, ga = (v.reals(k) for k in ('a', 'b', 'c', 'al', 'be', 'ga'))
    j.a0, j.b0, j.c0, j.alpha0, j.beta0, j.gamma0 = a, b, c, al, be, ga
    ca, cb, cg = (tm.cos(q * tm.PI / num(180)) for q in (al, be, ga))
    det = num(1) - ca * ca - cb * cb - cg * cg + num(2) * ca * cb * cg
    hy = [lt(num(0), q) for q in (a, b, c)] + [lt(num(0), det)]
    for o in v.run(lambda: j.calc_volume_unitcell(), hy):
        v.prove('volume squared', hy + o.pc, eq(o.value * o.value, a * a * b * b * c * c * det))


SYS = {'cubic': 225, 'hexagonal': 194, 'tetragonal': 139, 'orthorhombic': 62, 'monoclinic': 14, 'triclinic': 2}


def cell(rng, kind):
    a, b, c = (float(q) for q in rng.uniform(5, 7, 3))
    al, be, ga = (float(q) for q in rng.uniform(75, 110, 3))
    return {'cubic': [a, a, a, 90, 90, 90], 'hexagonal': [a, a, c, 90, 90, 120], 'tetragonal': [a, a, c, 90, 90, 90],
            'orthorhombic': [a, b, c, 90, 90, 90], 'monoclinic': [a, b, c, 90, be, 90], 'triclinic': [a, b, c, al, be, ga]}[kind]


def volume(lp):
    a, b, c = lp[:3]
    ca, cb, cg = np.cos(np.radians(lp[3:]))
    return a * b * c * np.sqrt(1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg)


@check.runtime('materials under pressure and temperature: pressure of the volume of a pressure, cell of that volume, state restored, file round trip', [M + k for k in ('.calc_pressure', '.calc_volume', '.calc_lp_at_PT', '.calc_lp_factor', '.lparms0', '.vt', '.kt', '.ktp', '.reset_v0')], n=24, thorough=10)
def _(t):
    from hexrd.core.material import Material
    from hexrd.core.material.jcpds import JCPDS_extend, SymmetryMismatch
    base = {}
    kinds = list(SYS)
    for k in t.cases():
        kind = kinds[k % len(kinds)]
        lp = np.array(cell(t.rng, kind), float)
        if kind not in base:
            from hexrd.core.valunits import valWUnit
            m = Material(dmin=valWUnit('d', 'length', 1.9, 'angstrom'))
            m.sgnum = SYS[kind]
            base[kind] = m
        m = base[kind]
        m.latticeParameters = list(lp)
        m.reset_v0()
        t.close(m.v0, volume(lp), 'reference volume', lp=lp, kind=kind)
        k0 = float(t.rng.uniform(20, 400))
        kp = float(t.rng.choice([4., t.rng.uniform(2.5, 7), t.rng.uniform(2.5, 7)]))
        m.k0, m.k0p, m.dk0dt, m.dk0pdt = k0, kp, float(t.rng.uniform(-.02, 0)), float(t.rng.uniform(-1e-4, 1e-4))
        m.alpha_t, m.dalpha_t_dt = float(t.rng.uniform(0, 5e-5)), float(t.rng.uniform(-1e-8, 1e-8))
        eos = dict(kind=kind, lp=lp, k0=k0, k0p=kp, dk0dt=m.dk0dt, dk0pdt=m.dk0pdt, alpha_t=m.alpha_t, dalpha_t_dt=m.dalpha_t_dt)
        T = None if k % 4 == 0 else float(t.rng.uniform(200, 2000))
        P = 0. if k % 5 == 0 else float(t.rng.uniform(-.02, .5) * k0)
        V = m.calc_volume(P, T)
        Vt = m.v0 if T is None else m.v0 * np.exp(m.alpha_t * (T - 298) + m.dalpha_t_dt * (T * T - 298. ** 2) / 2)
        Kt, Kpt = (k0, kp) if T is None else (k0 + m.dk0dt * (T - 298), kp + m.dk0pdt * (T - 298))
        bm = lambda V: 1.5 * Kt * ((Vt / V) ** (7 / 3) - (Vt / V) ** (5 / 3)) * (1 + .75 * (Kpt - 4) * ((Vt / V) ** (2 / 3) - 1))
        t.close(bm(V), P, 'volume is at that pressure', rtol=1e-6, atol=1e-7 * k0, pressure=P, temperature=T, **eos)
        t.close(m.calc_pressure(V, T), P, 'pressure of the volume', rtol=1e-6, atol=1e-7 * k0, pressure=P, temperature=T, **eos)
        t.close(m.calc_pressure(V * .97, T), bm(V * .97), 'equation of state', rtol=1e-9, atol=1e-9 * k0, temperature=T, **eos)
        xs = np.linspace(min(V, Vt), max(V, Vt), 60)
        q = bm(xs)
        t.expect(np.all(np.diff(q) < 1e-9 * k0), 'on the branch through the reference (pressure monotonic between the two volumes)', pressure=P, temperature=T, **eos)
        new = m.calc_lp_at_PT(P, T)
        t.close(volume(np.array([*(new[:3] * 10), *new[3:]])), V, 'cell volume', pressure=P, temperature=T, **eos)
        t.close(new[3:], lp[3:], 'angles', **eos)
        t.close(new[:3] / new[0], lp[:3] / lp[0], 'axial ratios', **eos)
        # applied to the material, the reference stays and applying it again changes nothing
        m.latticeParameters = [*(new[:3] * 10), *new[3:]]
        t.close(m.lparms0, [*(lp[:3] / 10), *lp[3:]], 'reference cell recovered', pressure=P, temperature=T, **eos)
        t.close(m.calc_lp_at_PT(P, T), new, 'lattice parameters at the same state', pressure=P, temperature=T, **eos)
        if k < 6:
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 'x.h5')
                m.write_structure_factor = getattr(m, 'write_structure_factor', None)
                m.dump_material(f)
                r = Material(m.name, f)
                for a in ('v0', 'k0', 'k0p', 'dk0dt', 'dk0pdt', 'alpha_t', 'dalpha_t_dt'):
                    t.close(getattr(r, a), getattr(m, a), f'file keeps {a}', **eos)
                t.close(r.calc_lp_at_PT(P, T), new, 'lattice parameters after the file round trip', pressure=P, temperature=T, **eos)
        # JCPDS
        lp2 = np.array(cell(t.rng, kind), float)
        vals = dict(K0=float(t.rng.uniform(20, 300)), K0P=float(t.rng.uniform(3, 6)), DK0DT=float(t.rng.uniform(-.02, 0)), DK0PDT=1e-5, ALPHAT=2e-5, DALPHATDT=1e-9)
        lines = ['VERSION: 4', 'COMMENT: test', f'SYMMETRY: {kind.upper()}'] + [f'{a}: {q!r}' for a, q in vals.items()]
        lines += [f'{a}: {float(q)!r}' for a, q in zip(('A', 'B', 'C', 'ALPHA', 'BETA', 'GAMMA'), lp2)] + ['DIHKL: 1.0 100 1 1 1']
        sys_no = 1 + kinds.index(kind)
        red = {1: [0], 2: [0, 2], 3: [0, 2], 4: [0, 1, 2], 5: [0, 1, 2, 4], 6: [0, 1, 2, 3, 4, 5]}[sys_no]
        old = ['4', 'test', f'{sys_no} {vals["K0"]!r} {vals["K0P"]!r}', ' '.join(repr(float(lp2[i])) for i in red), f'{vals["ALPHAT"]!r}']
        for form, txt in (('named', lines), ('numbered', old)):
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 'x.jcpds')
                open(f, 'w').write('\n'.join(txt) + '\n')
                j = JCPDS_extend(f)
            t.expect(j.symmetry == kind, 'crystal system', got=j.symmetry, want=kind, form=form)
            t.close(j.lattice_params, lp2, 'lattice parameters of the file', form=form, kind=kind)
            t.close(j.v0, volume(lp2), 'volume of the file', form=form, kind=kind)
            t.close([j.k0, j.k0p, j.alpha_t], [vals['K0'], vals['K0P'], vals['ALPHAT']], 'equation of state of the file', form=form)
            m.latticeParameters = list(lp)
            t.expect(not j.matches_material(m), 'mismatch', lp=lp, file=lp2)
            j.write_lattice_params_to_material(m)
            j.write_pt_params_to_material(m)
            t.expect(j.matches_material(m), 'match after writing to the material', file=lp2)
            t.close(m.v0, volume(lp2), 'reference volume follows', file=lp2)
            t.close(m.calc_lp_at_PT(0., 298), [*(lp2[:3] / 10), *lp2[3:]], 'reference state', file=lp2)
            t.close([m.k0, m.k0p, m.dk0dt, m.dk0pdt, m.thermal_expansion, m.thermal_expansion_dt], [j.k0, j.k0p, j.dk0dt, j.dk0pdt, j.alpha_t, j.dalpha_t_dt], 'equation of state of the material')
            other = base[next(q for q in base if q != kind)] if len(base) > 1 else None
            if other is not None:
                t.raises(SymmetryMismatch, lambda: j.write_lattice_params_to_material(other), 'other crystal system refused')
