"""quantities with units"""
from .common import *
import itertools
import numpy as np

check = Check('V01', assumptions=[
    'the conversion factors are floating-point numbers: they are compared with the exact ones to 1e-12 relative, everything else is exact'])
VW = 'hexrd.core.valunits:valWUnit'
FUNCS = [VW + '.' + n for n in ('getVal', '_convert', '__add__', '__sub__', '__mul__', 'isLength', 'isAngle', 'isEnergy')]
# value of one unit in base units
LEN = {'m': 1., 'meter': 1., 'mm': 1e-3, 'nm': 1e-9, 'angstrom': 1e-10}
ANG = {'degrees': np.pi / 180, 'radians': 1.}
ENE = {'keV': 1.60217646e-16, 'J': 1.}
KINDS = {'length': LEN, 'angle': ANG, 'energy': ENE}
# conversions the code has (directly); meter and m, radians... are spelled out in the documentation of getVal
HC = 12.398419843320026


@check.obligations('conversions', FUNCS[:2] + ['hexrd.core.constants:keVToAngstrom'])
def _(v):
    V = v.lift(VW)
    x = v.reals('x')
    known = {}
    for kind, units in KINDS.items():
        for a, b in itertools.product(units, units):
            def conv(val):
                return V('n', kind, val, a).getVal(b)
            try:
                c = float(conv(1.))
            except RuntimeError:
                continue
            known[a, b] = c
            v.ground(f'{a} to {b}: factor', abs(c / (units[a] / units[b]) - 1) < 1e-12, f'{c} instead of {units[a] / units[b]}')
            for o in v.run(lambda: conv(x)):
                v.prove(f'{a} to {b}', o.pc, eq(L(o.value), L(c) * x) if a != b else eq(L(o.value), x))
    for must in list(itertools.permutations(('m', 'mm', 'nm', 'angstrom'), 2)) + [('degrees', 'radians'), ('radians', 'degrees'), ('keV', 'J'), ('J', 'keV')]:
        if must not in known and must != ('m', 'm'):
            v.fail('conversion known', f'{must[0]} to {must[1]} is refused')
        else:
            v.ok('conversion known')
    h = [lt(num(0), x)]
    for a, b in (('keV', 'angstrom'), ('angstrom', 'keV')):
        for o in v.run(lambda: V('n', 'energy' if a == 'keV' else 'length', x, a).getVal(b), h):
            for p in v.run(lambda: V('n', 'length' if a == 'keV' else 'energy', o.value, b).getVal(a), h + o.pc):
                v.prove(f'{a} to {b} and back', h + o.pc + p.pc, eq(L(p.value), x))
            v.prove(f'{a} to {b}', h + o.pc, le(tm.absv(L(o.value) * x - L(HC)), L(1e-8)))
    units = [(k, u) for k, d in KINDS.items() for u in d]
    for (k, a), (k2, b) in itertools.product(units, units):
        if k != k2 and {a, b} != {'keV', 'angstrom'}:
            try:
                V('n', k, x, a).getVal(b)
            except RuntimeError:
                v.ok('no conversion between kinds')
            else:
                v.fail('no conversion between kinds', f'{a} to {b}')
    for u in ('foo', '', 'Degrees'):
        for k, a in units:
            try:
                V('n', k, x, a).getVal(u)
            except RuntimeError:
                v.ok('unknown unit refused')
            else:
                v.fail('unknown unit refused', f'{a} to {u!r}')


@check.obligations('arithmetic', FUNCS[2:])
def _(v):
    V = v.lift(VW)
    x, y = v.reals('x'), v.reals('y')
    for kind, units in KINDS.items():
        for a, b in itertools.product(units, units):
            try:
                V('n', kind, 1., b).getVal(a)
            except RuntimeError:
                continue
            for op, sg in (('__add__', 1), ('__sub__', -1)):
                def th():
                    p, q = V('p', kind, x, a), V('q', kind, y, b)
                    r = getattr(p, op)(q)
                    return r, q.getVal(a), p, q
                for o in v.run(th):
                    r, qa, p, q = o.value
                    v.prove(f'{op} {a} {b}', o.pc, and_(eq(L(r.value), x + L(qa) * num(sg)), eq(L(p.value), x), eq(L(q.value), y)))
                    v.require(f'{op} {a} {b}: kind', r.unit == a and r.uT == p.uT and p.unit == a and q.unit == b, '')
        for a in units:
            for op, want in (('__add__', x + y), ('__sub__', x - y), ('__mul__', x * y)):
                for o in v.run(lambda: getattr(V('p', kind, x, a), op)(y)):
                    v.prove(f'{op} {a} number', o.pc, eq(L(o.value.value), want))
                    v.require(f'{op} {a} number: kind', o.value.unit == a and o.value.uT == kind.upper(), '')
            q = V('q', kind, x, a)
            v.require('kind', (q.isLength(), q.isAngle(), q.isEnergy()) == tuple(kind == k for k in ('length', 'angle', 'energy')), kind)
    for (k, a), (k2, b) in itertools.permutations([('length', 'mm'), ('angle', 'degrees'), ('energy', 'J')], 2):
        for op in ('__add__', '__sub__'):
            try:
                getattr(V('p', k, x, a), op)(V('q', k2, y, b))
            except RuntimeError:
                v.ok('different kinds are not added')
            else:
                v.fail('different kinds are not added', f'{a} {op} {b}')
    for o in v.run(lambda: V('p', 'length', x, 'mm') * V('q', 'length', y, 'nm')):
        v.prove('product', o.pc, eq(L(o.value.value), x * y))
        v.require('product: kind', not (o.value.isLength() or o.value.isAngle() or o.value.isEnergy()) and o.value.unit == '(mm)*(nm)', '')


@check.obligations('numbers or quantities', ['hexrd.core.valunits:toFloat', 'hexrd.core.valunits:_toFloatScalar', 'hexrd.core.valunits:valWithDflt', 'hexrd.core.material.crystallography:processWavelength'])
def _(v):
    V = v.lift(VW)
    tf = v.lift('hexrd.core.valunits:toFloat')
    wd = v.lift('hexrd.core.valunits:valWithDflt')
    pw = v.lift('hexrd.core.material.crystallography:processWavelength')
    x, y = v.reals('x'), v.reals('y')
    for o in v.run(lambda: (tf(x, 'radians'), tf([x, V('n', 'angle', y, 'degrees')], 'radians'), tf(V('n', 'angle', y, 'degrees'), 'radians'), V('n', 'angle', y, 'degrees').getVal('radians'))):
        a, b, c, d = o.value
        v.prove('toFloat', o.pc, and_(eq(L(a), x), eq(L(b[0]), x), eq(L(b[1]), L(d)), eq(L(c), L(d))))
        v.require('toFloat: length', len(b) == 2, '')
    for o in v.run(lambda: (wd(None, x), wd(y, x), wd(None, V('n', 'length', x, 'mm'), 'mm'), wd(V('n', 'length', y, 'mm'), x, 'mm'), wd(None, x, 'mm'))):
        v.prove('valWithDflt', o.pc, and_(*[eq(L(p), q) for p, q in zip(o.value, [x, y, x, y, x])]))
    h = [lt(num(0), x)]
    for o in v.run(lambda: (pw(x), pw(V('e', 'energy', x, 'keV')), pw(V('w', 'length', V('e', 'energy', x, 'keV').getVal('angstrom'), 'angstrom'))), h):
        a, b, c = o.value
        v.prove('wavelength from energy, or itself', h + o.pc, and_(eq(L(a), L(b)), eq(L(a), L(c)), le(tm.absv(L(a) * x - L(HC)), L(1e-8))))
    for u, k in (('J', 1 / 1.60217646e-16),):
        for o in v.run(lambda: pw(V('e', 'energy', x, u)), h):
            v.prove('wavelength from joules', h + o.pc, le(tm.absv(L(o.value) * x * L(k) - L(HC)), L(1e-8)))
    for u, k in (('nm', 10.), ('mm', 1e7), ('m', 1e10)):
        for o in v.run(lambda: pw(V('e', 'length', x, u)), h):
            v.prove('wavelength in other units', h + o.pc, eq(L(o.value), L(k) * x))
    try:
        pw(V('a', 'angle', x, 'degrees'))
    except RuntimeError:
        v.ok('an angle is no wavelength')
    else:
        v.fail('an angle is no wavelength', '')


@check.runtime('materials and plane data take any unit', ['hexrd.core.material.material:Material._set_beamEnergy', 'hexrd.core.material.crystallography:PlaneData.wavelength', 'hexrd.core.material.crystallography:PlaneData.tThMax'], n=25)
def _(t):
    from hexrd.core.material.material import Material, _angstroms
    from hexrd.core.valunits import valWUnit
    m = Material()
    for i in t.cases():
        rng = t.rng
        e = float(rng.uniform(5, 150))
        lam = HC / e
        k = ['number', 'keV', 'J', 'angstrom'][i % 4]
        val = {'number': e, 'keV': valWUnit('e', 'energy', e, 'keV'), 'J': valWUnit('e', 'energy', e * 1.60217646e-16, 'J'), 'angstrom': valWUnit('w', 'length', lam, 'angstrom')}[k]
        m.beamEnergy = val
        t.close(m.planeData.wavelength, lam, 'wavelength of the plane data', rtol=1e-8, unit=k)
        t.close(m.unitcell.wavelength * 10, lam, 'wavelength of the unit cell', rtol=1e-6, unit=k)
        t.close(m.beamEnergy.getVal('keV'), e, 'beam energy', rtol=1e-8, unit=k)
        d = float(rng.uniform(.4, 1.2))
        u, fac = [('angstrom', 1.), ('nm', .1), ('mm', 1e-7)][i % 3]
        m.dmin = valWUnit('d', 'length', d * fac, u)
        t.close(m.unitcell.dmin * 10, d, 'minimum spacing', rtol=1e-12, unit=u)
        ds = 1 / np.linalg.norm(m.planeData.latVecOps['B'] @ m.planeData.getHKLs(allHKLs=True).T, axis=0)
        t.expect(len(ds) == 0 or ds.min() >= d * (1 - 1e-9), 'no reflection below the minimum spacing', unit=u, d=d, got=ds.min() if len(ds) else None)
        tm_ = float(rng.uniform(10, 80))
        m.planeData.tThMax = valWUnit('t', 'angle', tm_, 'degrees')
        t.close(m.planeData.tThMax, np.radians(tm_), 'maximum two-theta')
        m.planeData.tThMax = np.radians(tm_)
        t.close(m.planeData.tThMax, np.radians(tm_), 'maximum two-theta')
        m.planeData.tThMax = None


@check.runtime('arithmetic, conversion and defaults over every pair of units', ['hexrd.core.valunits:valWUnit', 'hexrd.core.valunits:toFloat', 'hexrd.core.valunits:valWithDflt', 'hexrd.core.material.crystallography:PlaneData.lparms', 'hexrd.core.material.crystallography:processWavelength'], n=40)
def _(t):
    from hexrd.core import valunits as vu
    from hexrd.core.valunits import valWUnit
    from hexrd.core.material.crystallography import PlaneData, processWavelength
    size = {'length': {'m': 1., 'meter': 1., 'mm': 1e-3, 'nm': 1e-9, 'angstrom': 1e-10}, 'angle': {'radians': 1., 'degrees': np.pi / 180}, 'energy': {'keV': 1., 'J': 1 / 1.60217646e-16}}
    for k in t.cases():
        for kind, units in size.items():
            for a, sa in units.items():
                x = float(t.rng.uniform(.1, 9))
                q = valWUnit('q', kind, x, a)
                t.expect((q.isLength(), q.isAngle(), q.isEnergy()) == (kind == 'length', kind == 'angle', kind == 'energy'), 'kind of a quantity', kind=kind)
                for b, sb in units.items():
                    t.close(q.getVal(b), x * sa / sb, 'converted value', rtol=1e-9, x=x, units=(a, b))
                    t.close(valWUnit('r', kind, q.getVal(b), b).getVal(a), x, 'converted back', x=x, units=(a, b))
                    y = float(t.rng.uniform(.1, 9))
                    p = valWUnit('p', kind, y, b)
                    t.close((q + p).getVal(a), x + y * sb / sa, 'sum', rtol=1e-9, x=x, y=y, units=(a, b))
                    t.close((q - p).getVal(a), x - y * sb / sa, 'difference', rtol=1e-9, atol=1e-9 * (x + y * sb / sa), x=x, y=y, units=(a, b))
                    t.expect((q + p).uT == (q - p).uT == q.uT, 'kind of a sum')
                    t.expect((q.value, q.unit, p.value, p.unit) == (x, a, y, b), 'operands left as they were')
                    t.close(vu.toFloat(q, b), x * sa / sb, 'toFloat', rtol=1e-9, units=(a, b))
                    t.close(vu.toFloat([q, y, q], b), [x * sa / sb, y, x * sa / sb], 'toFloat of a list', rtol=1e-9, units=(a, b))
                    t.close(vu.valWithDflt(None, q, b), x * sa / sb, 'default', rtol=1e-9, units=(a, b))
                    t.close(vu.valWithDflt(q, None, b), x * sa / sb, 'given value', rtol=1e-9, units=(a, b))
                f = float(t.rng.uniform(-3, 3))
                for got, want, tag in ((q + f, x + f, 'plus a number'), (q - f, x - f, 'minus a number'), (q * f, x * f, 'times a number')):
                    t.expect(got.unit == a and got.uT == q.uT, f'{tag}: unit kept', units=a)
                    t.close(got.value, want, tag, x=x, f=f)
                for bad in [u for kd, us in size.items() if kd != kind for u in us] + ['furlong', '']:
                    if {a, bad} != {'keV', 'angstrom'}:
                        t.raises(RuntimeError, lambda: q.getVal(bad), 'conversion refused', units=(a, bad))
        e = float(t.rng.uniform(5, 150))
        t.close(valWUnit('e', 'energy', e, 'keV').getVal('angstrom'), HC / e, 'wavelength of a photon', rtol=1e-8, e=e)
        t.close(valWUnit('w', 'length', HC / e, 'angstrom').getVal('keV'), e, 'energy of a photon', rtol=1e-8, e=e)
        for w in (valWUnit('e', 'energy', e, 'keV'), e, valWUnit('w', 'length', HC / e, 'angstrom'), valWUnit('w', 'length', HC / e * .1, 'nm'), valWUnit('w', 'length', HC / e * 1e-7, 'mm')):
            t.close(processWavelength(w), HC / e, 'processWavelength', rtol=1e-7, w=str(w))
        a, g = float(t.rng.uniform(2, 8)), float(t.rng.uniform(70, 110))
        hk = np.array([[1, 0, 0], [1, 1, 0], [0, 1, 2], [2, 1, 1]]).T
        want = None
        for lp in ([a, a * 1.1, a * 1.3, g, 95., 85.], [valWUnit('a', 'length', a, 'angstrom'), valWUnit('b', 'length', a * .11, 'nm'), valWUnit('c', 'length', a * 1.3e-7, 'mm'), valWUnit('g', 'angle', np.radians(g), 'radians'), 95., valWUnit('g', 'angle', 85., 'degrees')]):
            pd = PlaneData(hk, [5., 5., 5., 90., 90., 90.], 'ci', e, .01)
            pd.lparms = lp
            qd = PlaneData(hk, lp, 'ci', e, .01)
            for z in (pd, qd):
                s = np.array(sorted(z.getPlaneSpacings()))
                want = s if want is None else want
                t.close(s, want, 'spacings of plane data in any unit', rtol=1e-9, lp=str(lp))
