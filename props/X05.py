from .common import *
from .X02 import make_cell, rand_lp
from .X01 import gram_n
import numpy as np

check = Check('X05', assumptions=[
    'the tables (cross sections, Compton functions, scattering factors, atomic weights) are data; interpolation in them is a function of the energy or Q asked for (external)',
    'chemical formulas are parsed by chemparse (external)'])
M = 'hexrd.core.material.utils:'
MOD = 'hexrd.core.material.utils'
U = 'hexrd.core.material.unitcell:unitcell'
EL = ('H', 'O', 'Fe', 'Ce')


def weights():
    from hexrd.core.constants import ATOM_WEIGHTS_DICT
    return {e: L(float(ATOM_WEIGHTS_DICT[e])) for e in EL}


class Tables:
    """stand-in for the opened data file: one symbolic table per element"""

    def __init__(self, v):
        self.v = v

    def File(self, path, mode='r'):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getitem__(self, key):
        return self.v.array('table_' + key.strip('/').split('/')[0], (self.v.dim('rows'), 3))


class Res:
    class _R:
        def __truediv__(self, x):
            return self

        def joinpath(self, x):
            return self

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class resources:
        @staticmethod
        def files(x):
            return Res._R()

        @staticmethod
        def as_file(x):
            return x


@check.obligations('attenuation of a compound: Beer-Lambert coefficient of the mass-weighted mixture, in microns', [M + 'calculate_linear_absorption_length', M + 'calculate_energy_absorption_length', M + 'calculate_molecular_mass', M + 'calculate_number_density', M + 'convert_density_to_atoms_per_cubic_angstrom', M + 'normalize_composition'])
def _(v):
    W = weights()
    tabs = Tables(v)
    n = {e: v.reals('n' + e) for e in EL}
    rho, E = v.reals('rho'), v.reals('E')
    hy = [lt(num(0), rho), lt(num(0), E)] + [lt(num(0), n[e]) for e in EL]
    for fn, col in (('calculate_linear_absorption_length', 1), ('calculate_energy_absorption_length', 2)):
        f = v.lift(M + fn, overrides={(MOD, 'h5py'): tabs, (MOD, 'importlib'): Res})
        seen = []

        def interp(x, xp, fp, left=None, right=None):
            k = sym('i', 'I')
            seen.append((x, xp.el((k,)), fp.el((k,))))
            return snp.asarray([sym(f'log_mu{len(seen)}')])
        snp.interp = interp
        try:
            for els in (('H', 'O'), ('Fe',), ('Ce', 'O', 'H')):
                def go():
                    seen.clear()
                    return f(rho, {e: n[e] for e in els}, snp.asarray(np.array([E], dtype=object))), list(seen)
                for o in v.run(go, hy):
                    got, ask = o.value
                    h = hy + o.pc
                    v.require(f'{fn} {els}: one table per element', len(ask) == len(els), str(len(ask)))
                    mass = sum_([n[e] * W[e] for e in els])
                    mu = sum_([n[e] * W[e] / mass * tm.exp(sym(f'log_mu{k + 1}')) for k, e in enumerate(els)])
                    v.prove(f'{fn} {els}: 1 / (density x mixture), cm to micron', h, eq(L(got[0]) * rho * mu, num(10000)))
                    for k, e in enumerate(els):
                        x, xp, fp = ask[k]
                        i = sym('i', 'I')
                        t = tabs[e]
                        v.prove(f'{fn} {e}: at the energy asked for', h, eq(L(snp.asarray(x).reshape(-1)[0]), tm.log(E)))
                        v.prove(f'{fn} {e}: energies of its table', h, eq(xp, tm.log(t.el((i, num(0, 'I'))))))
                        v.prove(f'{fn} {e}: cross section column', h, eq(fp, tm.log(t.el((i, num(col, 'I'))))))
        finally:
            del snp.interp
    f, g, c = v.lift(M + 'calculate_molecular_mass'), v.lift(M + 'calculate_number_density'), v.lift(M + 'convert_density_to_atoms_per_cubic_angstrom')
    comp = {e: n[e] for e in EL[:3]}
    for o in v.run(lambda: (f(comp), g(rho, comp), c(comp, rho)), hy):
        m, d, a = o.value
        h = hy + o.pc
        v.prove('molecular mass', h, eq(m, sum_([n[e] * W[e] for e in comp])))
        from hexrd.core.constants import cAvogadro
        v.prove('number density: formula units per cubic nanometre', h, eq(d * m, num('1e-21') * rho * L(float(cAvogadro))))
        v.prove('atoms per cubic Angstrom', h, eq(a * m, num('0.602214129') * rho * sum_([n[e] for e in comp])))


@check.obligations('form factors of a composition: sums over its elements by their fractions, whatever the scale of the formula', [M + 'calculate_f_squared_mean', M + 'calculate_f_mean_squared', M + 'calculate_incoherent_scattering', M + 'calculate_coherent_scattering_factor', M + 'normalize_composition', M + 'interpret_formula'])
def _(v):
    from hexrd.core.constants import scatfac
    Q = v.reals('Q', (1,))
    f = v.lift(M + 'calculate_coherent_scattering_factor')
    s2 = (L(Q[0]) / (num(4) * PI)) ** 2
    hy = [le(num(0), L(Q[0]))]
    for e in EL:
        p = [num(repr(float(x))) for x in scatfac[e]]
        for o in v.run(lambda: f(e, Q), hy):
            v.prove(f'{e}: five Gaussians in (Q / 4 pi)^2 and a constant', hy + o.pc, eq(L(o.value[0]), p[5] + sum_([p[k] * tm.exp(-p[6 + k] * s2) for k in range(5)])))
    fe = {e: v.reals('f' + e) for e in EL}
    n = {e: v.reals('n' + e) for e in EL}
    c = {M + 'calculate_coherent_scattering_factor': lambda e, q: snp.asarray(np.array([fe[e]], dtype=object)),
         M + 'calculate_incoherent_scattering_factor': lambda e, q: snp.asarray(np.array([fe[e]], dtype=object))}
    hy = [lt(num(0), n[e]) for e in EL]
    for els in (('Fe',), ('H', 'O'), ('Ce', 'O', 'H')):
        comp = {e: n[e] for e in els}
        tot = sum_(list(comp.values()))
        mean = sum_([n[e] / tot * fe[e] for e in els])
        for name, want in (('calculate_f_squared_mean', sum_([n[e] / tot * fe[e] * fe[e] for e in els])), ('calculate_f_mean_squared', mean * mean), ('calculate_incoherent_scattering', mean)):
            g = v.lift(M + name, contracts=c)
            for o in v.run(lambda: (g(dict(comp), Q), g(None, Q)), hy):
                v.prove(f'{name} {els}', hy + o.pc, eq(L(o.value[0][0]), want))
                v.prove(f'{name} of nothing', hy + o.pc, eq(L(o.value[1][0]), num(0)))
    g = v.lift(M + 'normalize_composition')
    comp = {e: n[e] for e in EL}
    for o in v.run(lambda: g(comp), hy):
        v.prove('fractions add up to one', hy + o.pc, eq(sum_(list(o.value.values())), num(1)))
        v.require('composition handed in is untouched', all(comp[e] is n[e] for e in EL))


@check.obligations('density, mass, number density and absorption length of a unit cell belong together', [U + '.' + k for k in ('CalcDensity', 'calc_unitcell_mass', 'calc_number_density', 'calc_absorption_cross_sec', 'calc_absorption_length')])
def _(v):
    from hexrd.core.constants import atom_weights, cAvogadro
    C = v.lift(U)
    for Z in ((26,), (58, 8), (8, 58, 8)):
        m = len(Z)

        class D(C):
            atom_ntype = m
            atom_type = np.array(Z)
            vol, wavelength = sym('vol'), sym('lam')
        d = object.__new__(D)
        num_ = [v.reals(f'n{k}') for k in range(m)]
        occ = [v.reals(f'occ{k}') for k in range(m)]
        d.numat = snp.asarray(np.array(num_, dtype=object))
        pos = np.array([[num(0)] * 3 + [o] for o in occ], dtype=object)
        d.atom_pos = snp.asarray(pos)
        from hexrd.core import constants
        cs = {z: sym(f'cs{z}') for z in set(Z)}
        d.pe_cs = {constants.ptableinverse[z]: (lambda lam, z=z: cs[z]) for z in set(Z)}
        hy = [lt(num(0), q) for q in num_ + occ + [D.vol] + list(cs.values())]
        A = [L(float(atom_weights[z - 1])) for z in Z]
        NA = L(float(cAvogadro))
        mass = sum_([A[k] * num_[k] * occ[k] for k in range(m)])

        def go():
            d.CalcDensity()
            rho = d.density
            d.calc_absorption_length()
            return rho, d.calc_unitcell_mass(), d.calc_number_density(), d.absorption_length, d.avA, d.avZ
        for o in v.run(go, hy):
            rho, M_, N, l, avA, avZ = o.value
            h = hy + o.pc
            cm3 = D.vol * num('1e-21')
            v.prove(f'{Z}: density is mass by volume', h, eq(rho * cm3 * NA, mass))
            v.prove(f'{Z}: mass of the cell counts occupancies', h, eq(M_, mass))
            v.prove(f'{Z}: one cell per cell volume', h, eq(N * D.vol, num('1e9')))
            mu = sum_([A[k] * num_[k] * occ[k] / (cm3 * NA) * cs[Z[k]] for k in range(m)])
            v.prove(f'{Z}: absorption length in microns', h, eq(l * mu, num(10000)))
            v.prove(f'{Z}: mean atomic weight', h, eq(avA * sum_([num_[k] * occ[k] for k in range(m)]), mass))
            v.prove(f'{Z}: mean atomic number', h, eq(avZ * sum_(num_), sum_([num_[k] * num(Z[k]) for k in range(m)])))


@check.runtime('tabulated materials: forward scattering is the electron number, limits of Compton scattering, mixtures between their elements, cells against formulas', [
    M + k for k in ('calculate_linear_absorption_length', 'calculate_energy_absorption_length', 'calculate_coherent_scattering_factor', 'calculate_incoherent_scattering_factor', 'calculate_f_squared_mean', 'calculate_f_mean_squared', 'calculate_incoherent_scattering', 'interpret_formula')]
    + [U + '.CalcDensity', U + '.calc_absorption_length', U + '.InitializeInterpTable'], n=40, thorough=20)
def _(t):
    from hexrd.core.material import utils as u
    from hexrd.core import constants as ct
    names = [e for e in list(ct.ATOM_WEIGHTS_DICT)[:83] if e in ct.scatfac]
    Z = {e: z for z, e in ct.ptableinverse.items()}
    for k in t.cases():
        a, b = (names[int(i)] for i in t.rng.choice(len(names), 2, replace=False))
        na, nb = int(t.rng.integers(1, 5)), int(t.rng.integers(1, 5))
        f = f'{a}{na}{b}{nb}'
        d = {a: na, b: nb}
        E = t.rng.uniform(5, 120, 4)
        Q = np.array([0., *t.rng.uniform(.2, 12, 3)])
        rho = float(t.rng.uniform(1, 20))
        data = dict(formula=f, energies=E, Q=Q, density=rho)
        wa, wb = (d[e] * ct.ATOM_WEIGHTS_DICT[e] for e in (a, b))
        for fn in (u.calculate_linear_absorption_length, u.calculate_energy_absorption_length):
            l, ld = fn(rho, f, E), fn(rho, d, E)
            t.close(l, ld, f'{fn.__name__}: string and dictionary', **data)
            mu = (wa / fn(rho, a, E) + wb / fn(rho, b, E)) / (wa + wb)
            t.close(1 / l, mu, f'{fn.__name__}: mass-weighted mixture', **data)
            t.close(fn(2 * rho, f, E) * 2, l, f'{fn.__name__}: inverse in the density', **data)
        t.expect(np.all(u.calculate_energy_absorption_length(rho, f, E) >= u.calculate_linear_absorption_length(rho, f, E) * (1 - 1e-9)), 'energy absorption is at most attenuation', **data)
        fe = u.calculate_coherent_scattering_factor(a, Q)
        t.close(fe[0], Z[a], 'forward scattering by all electrons', rtol=3e-3, atol=.06, element=a)
        s2 = (Q / 4 / np.pi) ** 2
        p = ct.scatfac[a]
        t.close(fe, p[5] + sum(p[j] * np.exp(-p[6 + j] * s2) for j in range(5)), 'coherent factor', element=a, Q=Q)
        x, y = (na / (na + nb), nb / (na + nb))
        fa, fb = u.calculate_coherent_scattering_factor(a, Q), u.calculate_coherent_scattering_factor(b, Q)
        t.close(u.calculate_f_squared_mean(f, Q), x * fa ** 2 + y * fb ** 2, 'mean of squares', **data)
        t.close(u.calculate_f_mean_squared(f, Q), (x * fa + y * fb) ** 2, 'square of the mean', **data)
        ia, ib = u.calculate_incoherent_scattering_factor(a, Q), u.calculate_incoherent_scattering_factor(b, Q)
        t.close(u.calculate_incoherent_scattering(f, Q), x * ia + y * ib, 'incoherent mean', **data)
        t.close(u.calculate_incoherent_scattering(a, np.array([0.])), 0, 'no Compton scattering forward', atol=1e-9, element=a)
        hi = u.calculate_incoherent_scattering(a, np.array([80.]))[0]
        t.expect(.9 * Z[a] < hi <= 1.01 * Z[a], 'Compton scattering by all electrons at high Q', element=a, got=hi)
        # the same numbers from a unit cell with these atoms
        if k < 12 and Z[a] > 2 and Z[b] > 2:
            occ = float(t.rng.choice([1., .6]))
            s = 225 if k % 2 else 2
            lp = rand_lp(t.rng, s, .3)
            kev = float(t.rng.uniform(20, 80))
            uc = make_cell(lp, s, .2, kev, atoms=((0., 0., 0., 1.), (.5, .5, .5, occ)), Z=(Z[a], Z[b]))
            n = np.array(uc.numat) * np.array([1, occ])
            comp = {a: float(n[0]), b: float(n[1])}
            data = dict(lp=lp, elements=(a, b), occupancy=occ, kev=kev)
            mass = sum(comp[e] * ct.ATOM_WEIGHTS_DICT[e] for e in comp)
            t.close(uc.density, mass / (uc.vol * 1e-21 * ct.cAvogadro), 'density', rtol=1e-3, **data)
            t.close(uc.calc_number_density(), 1e9 / uc.vol, 'cells per cubic micron', **data)
            near = any(True for e in (a, b) for edge in edges(u, e) if abs(edge - kev) < .05 * kev)
            if not near:
                t.close(uc.absorption_length, u.calculate_linear_absorption_length(uc.density, comp, np.array([kev]))[0], 'absorption length of the cell and of its formula', rtol=.08, **data)


def edges(u, e):
    """energies in keV where the tabulated attenuation jumps up"""
    import h5py
    import importlib.resources
    import hexrd.core.resources as r
    with h5py.File(str(importlib.resources.files(r) / 'mu_en.h5')) as f:
        d = np.array(f[f'/{e}/data'])
    return d[1:, 0][np.diff(d[:, 1]) > 0]


@check.runtime('number densities of compositions', [M + 'calculate_molecular_mass', M + 'calculate_number_density', M + 'convert_density_to_atoms_per_cubic_angstrom', M + 'normalize_composition'], n=60)
def _(t):
    from hexrd.core.material import utils as u
    from hexrd.core import constants as ct
    names = list(ct.ATOM_WEIGHTS_DICT)[:90]
    for k in t.cases():
        els = [names[int(i)] for i in t.rng.choice(len(names), int(t.rng.integers(1, 5)), replace=False)]
        comp = {e: int(t.rng.integers(1, 9)) for e in els}
        f = ''.join(f'{e}{n if n > 1 or t.rng.integers(2) else ""}' for e, n in comp.items())
        rho = float(t.rng.uniform(.1, 20))
        data = dict(formula=f, density=rho)
        t.expect(dict(u.interpret_formula(f)) == comp, 'formula read', got=u.interpret_formula(f), **data)
        mass = sum(n * ct.ATOM_WEIGHTS_DICT[e] for e, n in comp.items())
        for x in (f, comp):
            t.close(u.calculate_molecular_mass(x), mass, 'molecular mass', x=str(x), **data)
            t.close(u.calculate_number_density(rho, x), rho * ct.cAvogadro / mass / 1e21, 'formula units per cubic nanometre', **data)
        atoms = sum(comp.values())
        for scale in (1, 2.5):
            c = {e: n * scale for e, n in comp.items()}
            before = dict(c)
            t.close(u.convert_density_to_atoms_per_cubic_angstrom(c, rho), rho * .602214129 * atoms / mass, 'atoms per cubic angstrom', rtol=1e-6, **data)
            nc = u.normalize_composition(c)
            t.expect(list(nc) == list(c) and c == before, 'composition left as it was', **data)
            t.close(list(nc.values()), [n / atoms for n in comp.values()], 'fractions of the elements', **data)
        t.expect(u.convert_density_to_atoms_per_cubic_angstrom(None, rho) == 0., 'no composition, no atoms')


@check.runtime('density, composition and absorption of a cell follow every change of it', [
    U + '.lparms', U + '.a', U + '.c', U + '.voltage', U + '.atom_pos', U + '.sgnum', U + '.remove_duplicate_atoms', U + '.chemical_formula', U + '.vol_per_atom', U + '.calc_unitcell_mass', U + '.calc_number_density', U + '.CalcDensity', U + '.calc_absorption_length',
    'hexrd.core.material.material:Material._set_beamEnergy', 'hexrd.core.material.material:Material.absorption_length', 'hexrd.core.material.material:Material.latticeParameters'], n=24, thorough=5)
def _(t):
    from hexrd.core import constants as ct
    from hexrd.core.material.unitcell import _rqpDict
    from hexrd.core.material import symmetry
    ok = [z for z in range(3, 80) if ct.ptableinverse[z] in ct.scatfac]
    for k in t.cases():
        s = int(t.rng.choice([2, 14, 62, 88, 139, 148, 166, 176, 194, 216, 225, 227]))
        Z = [int(z) for z in t.rng.choice(ok, 3, replace=False)]
        occ = [1., float(t.rng.choice([1., .3, .75])), .5]
        at = np.array([[0., 0, 0, occ[0]], [.31, .22, .43, occ[1]], [*t.rng.uniform(.1, .2, 3), occ[2]]])
        lp, kev = rand_lp(t.rng, s, .4), float(t.rng.uniform(20, 80))
        uc = make_cell(lp, s, .2, kev, atoms=at, Z=Z)
        hist = []

        def same(tag):
            hist.append(tag)
            data = dict(sgnum=uc.sgnum, elements=Z, history=list(hist), lparms=uc.lparms)
            w = make_cell([*(10 * x for x in uc.lparms[:3]), *uc.lparms[3:]], uc.sgnum, .2, uc.voltage / 1e3, atoms=uc.atom_pos, Z=uc.atom_type)
            z, n, o = np.array(uc.atom_type), np.array(uc.numat), uc.atom_pos[:, 3]
            mass = sum(ct.ATOM_WEIGHTS_DICT[ct.ptableinverse[int(i)]] * a * b for i, a, b in zip(z, n, o))
            t.expect([len(p) for p in uc.asym_pos] == list(n) == list(w.numat), 'atoms counted', got=list(n), want=list(w.numat), **data)
            t.close(uc.calc_unitcell_mass(), mass, 'mass of the cell', rtol=1e-4, **data)
            t.close(uc.density, mass / (np.sqrt(np.linalg.det(gram_n(uc.lparms))) * 1e-21 * ct.cAvogadro), 'density is mass by volume', rtol=1e-4, **data)
            t.close(uc.calc_number_density(), 1e9 / uc.vol, 'cells per cubic micron', **data)
            t.close(uc.vol_per_atom, 1e3 * uc.vol / sum(n), 'volume per atom', **data)
            t.close(uc.absorption_length, w.absorption_length, 'absorption length is that of the present cell', **data)
            t.close(uc.wavelength, ct.cPlanck * ct.cLight / ct.cCharge / uc.voltage * 1e9, 'wavelength', **data)
            import re
            f = [(e, float(x or 1)) for e, x in re.findall(r'([A-Z][a-z]?)([0-9.]*)', uc.chemical_formula)]
            t.expect([e for e, _ in f] == [ct.ptableinverse[int(i)] for i in z], 'elements of the formula', got=uc.chemical_formula, **data)
            t.close([x for _, x in f], n * o, 'abundances of the formula', got=uc.chemical_formula, **data)

        same('new')
        ops = [t.pr.choice(['lparms', 'edit', 'voltage', 'atoms', 'sgnum', 'duplicates']) for _ in range(3)]
        for op in ops:
            if op == 'lparms':
                from hexrd.core.material.material import _angstroms, _degrees
                p = rand_lp(t.rng, uc.sgnum, .4)
                uc.lparms = [_angstroms(x) for x in p[:3]] + [_degrees(x) for x in p[3:]]
            elif op == 'edit':
                names = ['a', 'b', 'c', 'alpha', 'beta', 'gamma']
                free = [names[i] for i in _rqpDict[uc.latticeType][0] if i < 3]
                nm = t.pr.choice(free)
                v = getattr(uc, nm) * 1.1
                setattr(uc, nm, v)
                t.close(getattr(uc, nm), v, 'edited length', name=nm, history=hist)
                fixed = [x for x in names if x not in [names[i] for i in _rqpDict[uc.latticeType][0]]]
                for x in fixed:
                    t.raises(RuntimeError, lambda: setattr(uc, x, 1.), 'dependent parameter refused', name=x)
            elif op == 'voltage':
                uc.voltage = float(t.rng.uniform(20, 80)) * 1e3
            elif op == 'atoms':
                q = uc.atom_pos.copy()
                q[0, 3] = float(t.rng.uniform(.2, 1))
                q[-1, :3] = t.rng.uniform(.3, .4, 3)
                uc.atom_pos = q
            elif op == 'sgnum':
                grp = [x for x in range(1, 231) if symmetry.latticeType(x) == uc.latticeType]
                uc.sgnum = int(t.pr.choice(grp))
            else:
                # an atom at an equivalent of the first one's place is the same atom
                q = make_cell([*(10 * x for x in uc.lparms[:3]), *uc.lparms[3:]], uc.sgnum, .2, uc.voltage / 1e3, atoms=uc.atom_pos, Z=uc.atom_type)
                img = q.asym_pos[2][-1]
                at2 = np.vstack([q.atom_pos, [*img, .9]])
                Z2 = [*q.atom_type, 26]
                u2 = make_cell([*(10 * x for x in q.lparms[:3]), *q.lparms[3:]], q.sgnum, .2, q.voltage / 1e3, atoms=at2, Z=Z2)
                u2.remove_duplicate_atoms()
                t.expect(list(u2.atom_type) == list(q.atom_type), 'repeated atom removed, the others kept', atoms=at2, got=list(u2.atom_type), sgnum=q.sgnum)
                uc = u2
            same(op)
    from hexrd.core.material.material import Material
    m = Material()
    for e in (30., 65., 22.):
        m.beamEnergy = e
        t.close(m.absorption_length, make_cell([10 * x for x in m.unitcell.lparms[:3]] + list(m.unitcell.lparms[3:]), m.sgnum, .2, e, atoms=m.unitcell.atom_pos, Z=m.unitcell.atom_type).absorption_length, 'absorption length of a material at its energy', energy=e)
    m.latticeParameters = [4.0]
    t.close(m.unitcell.density, m.unitcell.calc_unitcell_mass() / (.4 ** 3 * 1e-21 * ct.cAvogadro), 'density of a material after its cell changed')
