from .common import *
import math
import numpy as np
from vc import hall, smt, explore
from vc.terms import Unsupported

check = Check('X02', assumptions=[
    'oracle: systematic absence = some operation {W|w} of the Hall-symbol group (vc/hall.py) with hW = h and h.w not an integer',
    'reflection lists are lists of integer triples with |h|,|k|,|l| <= 90 for the rhombohedral and parity shifts (mathematical integers)'])
G = 'hexrd.core.material.spacegroup:'
UC = 'hexrd.core.material.unitcell:'
FUN = [G + 'Allowed_HKLs', G + 'omitscrewaxisabsences', G + 'omitglideplaneabsences', G + 'NonSymmorphicAbsences',
       G + 'get_symmetry_directions']


def absent(ops, h):
    g = 24
    for _W, w in ops:
        for x in w:
            g = math.gcd(g, x)
    mod = 24 // g
    alts = []
    for W, w in sorted(ops):
        if all((x // g) % mod == 0 for x in w):
            continue
        eqs = []
        for j in range(3):
            s = sum_([h[k] * W[3 * k + j] for k in range(3)])
            eqs.append(eq(s, h[j]))
        t = sum_([h[k] * (w[k] // g) for k in range(3)])
        alts.append(and_(*eqs, not_(eq(t % mod, num(0)))))
    return or_(*alts) if alts else FALSE


def row_predicate(d, i):
    out = []
    while d in snp.FILTERS:
        base, m = snp.FILTERS[d]
        out.append(tm.tobool(m(i)))
        d = base
    return (and_(*out) if out else TRUE), d


@check.obligations('allowed reflections = reflections without a systematic absence, every integer hkl, all 230 groups', FUN)
def _(v):
    from hexrd.core.material import spacegroup as sg
    f = v.lift(G + 'Allowed_HKLs')
    n = sym('n', 'I')
    i = sym('i', 'I')
    H = snp.ndarray.symb((n, 3), lambda ix: app('h', *[L(x) for x in ix], sort='I'), np.dtype(int))
    h = [sym(c, 'I') for c in 'hkl']
    sub = {H.el((i, k)): h[k] for k in range(3)}
    for s in range(1, 231):
        A = absent(hall.group(sg.lookupHall[s]), h)
        for o in v.run(lambda: f(s, H), [le(num(1), n)]):
            r = o.value
            p, base = row_predicate(r.shape[0], i)
            if base is not n:
                raise Unsupported('result is not a filtered view of the input')
            p = tm.subst(p, sub)
            row = [tm.subst(L(r.el((i, k))), sub) for k in range(3)]
            v.require(f'{s} surviving rows are unchanged', all(a is b for a, b in zip(row, h)), str(row)[:200])
            goal = or_(and_(p, not_(A)), and_(not_(p), A))
            v.prove(f'{s} allowed iff not absent', [], goal)


@check.runtime('allowed reflections on lists of indices', FUN, n=230)
def _(t):
    from hexrd.core.material import spacegroup as sg
    order = t.rng.permutation(230) + 1
    for k in t.cases():
        s = int(order[k % 230])
        H = t.rng.integers(-9, 10, size=(400, 3))
        H[:60, 0] = 0
        H[60:120, 1] = 0
        H[120:180, 2] = 0
        H[180:210, 1] = H[180:210, 0]
        H[210:240, 2] = H[210:240, 1]
        H[240:260, 1] = -H[240:260, 0]
        H[260:280, :2] = 0
        H[280:300, 1:] = 0
        H[300:320, ::2] = 0
        H[320:330, 1] = H[320:330, 2] = H[320:330, 0]
        H[330:345, 2] = H[330:345, 0]
        H[345:355, 1] = -2 * H[345:355, 0]
        H[355:365, 0] = -2 * H[355:365, 1]
        ab = absent_vec(s, H)
        got = sg.Allowed_HKLs(s, H)
        t.expect(got.dtype == np.int32, 'dtype', sgnum=s)
        want = H[~ab]
        if got.shape != want.shape or (got != want).any():
            gs, ws = {tuple(x) for x in got}, {tuple(x) for x in want}
            bad = sorted(gs ^ ws, key=lambda x: sum(y * y for y in x))
            t.expect(False, f'space group {s}: reflection {tuple(int(x) for x in bad[0]) if bad else "order"} misclassified', sgnum=s,
                     wrong=[[int(y) for y in x] for x in bad[:20]])
        t.count += len(H)
        one = sg.Allowed_HKLs(s, H[0])
        t.expect(len(one) == int(not ab[0]), 'single reflection', sgnum=s, hkl=H[0])


_ops = {}


def absent_vec(s, H):
    from hexrd.core.material import spacegroup as sg
    if s not in _ops:
        ops = sorted(hall.group(sg.lookupHall[s]))
        _ops[s] = (np.array([w for w, _ in ops]).reshape(-1, 3, 3), np.array([t for _, t in ops]))
    W, w = _ops[s]
    HW = np.einsum('nk,okj->onj', H, W)
    return ((HW == H[None]).all(2) & ((w @ H.T) % 24 != 0)).any(0)


@check.runtime('reflection list of a unit cell: all and only allowed Laue-unique reflections above dmin', [
    UC + 'unitcell.getHKLs', UC + 'unitcell.ChooseSymmetric', UC + 'unitcell.CalcMaxGIndex', UC + 'unitcell.SortHKL'], n=60, thorough=20)
def _(t):
    from hexrd.core.material import material, spacegroup as sg
    for k in t.cases():
        s = int(t.rng.choice([1, 2, 5, 14, 15, 19, 43, 62, 88, 96, 122, 141, 142, 146, 148, 152, 161, 167, 176, 178, 194, 198, 205, 206, 220, 225, 227, 228, 229, 230]))
        lp = rand_lp(t.rng, s, 0.35)
        if k == 0:
            s, lp = 14, [7., 4., 6.5, 90, 121, 90]
        dmin = 0.0453 if k == 0 else float(t.rng.uniform(0.1, 0.14)) * max(lp[:3]) / 5
        uc = make_cell(lp, s, dmin)
        got = np.asarray(uc.getHKLs(dmin))
        absent_vec(s, np.zeros((1, 3), int))
        W = _ops[s][0]
        G_ = metric(uc)
        gs = np.linalg.inv(G_)
        mx = [int(math.ceil(math.sqrt(G_[j, j]) / dmin)) + 1 for j in range(3)]
        ax = [np.arange(-x, x + 1) for x in mx]
        H = np.stack(np.meshgrid(*ax, indexing='ij'), -1).reshape(-1, 3)
        H = H[(H != 0).any(1)]
        g = np.sqrt(np.einsum('ni,ij,nj->n', H, gs, H))
        d = 1 / g
        keep = (d > dmin + 1e-9) & ~absent_vec(s, H)
        edge = {tuple(x) for x in H[np.abs(d - dmin) <= 1e-9]}
        want = {tuple(x) for x in H[keep]}
        Wl = np.concatenate([W, -W])

        def orbit(x):
            return frozenset(tuple(int(z) for z in y) for y in np.einsum('k,okj->oj', np.asarray(x), Wl))
        wo = {orbit(x) for x in want}
        go = [orbit(x) for x in got if tuple(x) not in edge]
        t.expect(len(go) == len(set(go)), 'a reflection family is listed twice', sgnum=s, lp=lp, dmin=dmin)
        t.expect(set(go) <= wo, 'an absent or too short reflection is listed', sgnum=s, lp=lp, dmin=dmin,
                 extra=[sorted(x)[0] for x in set(go) - wo][:5])
        # known limitation: indices are bounded by the interplanar distances, which cuts families of oblique cells
        lim = [int(math.ceil(1 / math.sqrt(gs[j, j]) / dmin - 1e-9)) for j in range(3)]
        cut = {x for x in wo - set(go) if all(any(abs(y[j]) > lim[j] for j in range(3)) for y in x)}
        if cut:
            t.expect(False, 'families with large indices are missing', finding='oblique-index-range', sgnum=s, lp=lp, dmin=dmin,
                     missing=[sorted(x)[0] for x in cut][:5])
        t.expect(set(go) | cut == wo, 'families of the list differ from the allowed families above dmin', sgnum=s, lp=lp, dmin=dmin,
                 missing=[sorted(x)[0] for x in wo - set(go)][:5], extra=[sorted(x)[0] for x in set(go) - wo][:5])
        gg = np.sqrt(np.einsum('ni,ij,nj->n', got, gs, got))
        t.expect((np.diff(gg) > -1e-6).all(), 'not sorted by length', sgnum=s, lp=lp)


def metric(uc):
    a, b, c = uc.a, uc.b, uc.c
    al, be, ga = [math.radians(x) for x in (uc.alpha, uc.beta, uc.gamma)]
    return np.array([[a * a, a * b * math.cos(ga), a * c * math.cos(be)], [a * b * math.cos(ga), b * b, b * c * math.cos(al)],
                     [a * c * math.cos(be), b * c * math.cos(al), c * c]])


def rand_lp(rng, s, oblique=0.5):
    from hexrd.core.material import spacegroup as sg
    r = lambda a=3., b=7.: float(rng.uniform(a, b))
    lt = sg.SpaceGroup(s).latticeType
    a, b, c = r(), r(), r()
    while True:
        al, be, ga = [float(rng.uniform(90 - 90 * oblique, 90 + 90 * oblique)) for _ in range(3)]
        if lt != 'triclinic':
            al = ga = 90.
        if lt not in ('triclinic', 'monoclinic'):
            be = 90.
        if lt in ('tetragonal', 'trigonal', 'hexagonal', 'cubic'):
            b = a
        if lt in ('trigonal', 'hexagonal'):
            ga = 120.
        if lt == 'cubic':
            c = a
        ca, cb, cg = [math.cos(math.radians(x)) for x in (al, be, ga)]
        if 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg > 0.05:
            return [a, b, c, al, be, ga]


def make_cell(lp, s, dmin, kev=60., setting=0, atoms=((0.1, 0.2, 0.3, 1.0),), Z=(28,), U=6e-3):
    from hexrd.core.material.unitcell import unitcell
    from hexrd.core.material.material import _angstroms, _degrees
    v = [_angstroms(x) for x in lp[:3]] + [_degrees(x) for x in lp[3:]]
    return unitcell(v, s, np.array(Z), np.array(['0'] * len(Z)), np.array(atoms, float), np.full(len(Z), U), dmin, kev, setting)
