from .common import *
import numpy as np
from vc import hall

check = Check('R03', assumptions=[
    'the space-group table has 230 entries, so every statement about a tabulated group is discharged by running '
    'the real code on all of them (ground evaluation); the oracle is an independent Hall-symbol parser (vc/hall.py)'])
S = 'hexrd.core.material.symmetry:'
G = 'hexrd.core.material.spacegroup:'
R = 'hexrd.core.rotations:'
_C = {}


def fast_isnew():
    """vectorised form of symmetry.isnew (contract proved below) used as its callee contract when running the
    generators, numba being off"""
    from hexrd.core.material import symmetry

    def isnew(mat, mats):
        return not bool((np.abs(np.asarray(mats) - mat).reshape(len(mats), -1).sum(1) < 1e-5).any())
    symmetry.isnew = isnew


def groups():
    """results of the real generator for all groups and both settings"""
    if not _C:
        from hexrd.core.material import symmetry as sy
        old = sy.isnew
        fast_isnew()
        try:
            f = getattr(sy.GenerateSGSym, '__wrapped__', sy.GenerateSGSym)
            for n in range(1, 231):
                for s in (0, 1):
                    _C[n, s] = f(n, s)
        finally:
            sy.isnew = old
    return _C


def asint(ops):
    out = []
    for o in np.asarray(ops):
        t = np.asarray(o)[:3, 3] * 24
        W = np.asarray(o)[:3, :3]
        if np.abs(t - np.round(t)).max() > 1e-6 or np.abs(W - np.round(W)).max() > 1e-9:
            return None
        out.append((tuple(int(round(x)) for x in W.ravel()), tuple(int(round(x)) % 24 for x in t)))
    return out


def mats(a):
    return {tuple(int(round(x)) for x in np.asarray(m).ravel()) for m in a}


def hallof(n, s):
    from hexrd.core.material import spacegroup as sg
    if s == 1 and f'{n}:2' in sg.sgid_to_hall:
        return sg.sgid_to_hall[f'{n}:2']
    return sg.lookupHall[n]


@check.obligations('isnew: true iff no listed matrix agrees within the tolerance', [S + 'isnew'])
def _(v):
    f = v.lift(S + 'isnew')
    m = v.reals('m', (2, 2))
    L_ = v.reals('g', (3, 2, 2))
    for o in v.run(lambda: f(m, L_)):
        d = [sum_([tm.absv(m[i, j] - L_[k, i, j]) for i in range(2) for j in range(2)]) for k in range(3)]
        same = or_(*[lt(x, num(tm.Fraction(1, 100000))) for x in d])
        r = o.value if isinstance(o.value, T) else (TRUE if o.value else FALSE)
        v.prove('iff', o.pc, or_(and_(r, not_(same)), and_(not_(r), same)))


@check.obligations('latticeType(n): monotone classification of every number', [S + 'latticeType'])
def _(v):
    f = v.lift(S + 'latticeType')
    n = v.ints('n')
    names = ['triclinic', 'monoclinic', 'orthorhombic', 'tetragonal', 'trigonal', 'hexagonal', 'cubic']
    up = [2, 15, 74, 142, 167, 194, 230]
    for o in v.run(lambda: f(n), [le(num(1), n)], allow_exc=True):
        if o.exc is not None:
            v.prove('raises only beyond 230', o.pc, lt(num(230), n))
            continue
        k = names.index(o.value)
        v.prove(f'{o.value} range', o.pc + [le(num(1), n)], and_(le(n, num(up[k])), lt(num(up[k - 1] if k else 0), n)))


@check.obligations('the generated symmetry operations are exactly the space group', [
    S + 'GenerateSGSym', S + 'MakeGenerators', S + 'SYM_fillgen', S + 'GeneratorString', S + 'GeneratePGSym', S + 'GeneratePGSym_Laue'])
def _(v):
    from hexrd.core import constants
    for (n, s), (SG, PG, LG, cen, sym_) in groups().items():
        try:
            ref = hall.group(hallof(n, s))
        except Exception as e:
            v.ground(f'{n}:{s} Hall symbol is readable', False, repr(e), sgnum=n)
            continue
        ops = asint(SG)
        v.ground(f'{n}:{s} operations', ops is not None and len(set(ops)) == len(ops) and set(ops) == set(ref),
                 f'space group {n} setting {s}', sgnum=n, setting=s)
        W = {o[0] for o in ref}
        v.ground(f'{n}:{s} point group', mats(PG) == W and len(PG) == len(W), f'space group {n}', sgnum=n)
        Wl = W | {tuple(-x for x in w) for w in W}
        v.ground(f'{n}:{s} Laue group', mats(LG) == Wl and len(LG) == len(Wl), f'space group {n}', sgnum=n)
        v.ground(f'{n}:{s} centrosymmetric flag', bool(cen) == ((-1, 0, 0, 0, -1, 0, 0, 0, -1) in W), f'space group {n}', sgnum=n)
        v.ground(f'{n}:{s} symmorphic flag', s == 1 or bool(sym_) == symmorphic(ref), f'space group {n}', sgnum=n)


def symmorphic(ref):
    """some point is fixed by a coset representative of every rotation: the origin of the standard symbols"""
    return {w for w, t in ref if t == (0, 0, 0)} == {w for w, t in ref}


ORD = {'c1': 1, 'ci': 2, 'c2': 2, 'cs': 2, 'c2h': 4, 'd2': 4, 'c2v': 4, 'd2h': 8, 'c4': 4, 's4': 4, 'c4h': 8, 'd4': 8,
       'c4v': 8, 'd2d': 8, 'd4h': 16, 'c3': 3, 's6': 6, 'd3': 6, 'c3v': 6, 'd3d': 12, 'c6': 6, 'c3h': 6, 'c6h': 12,
       'd6': 12, 'c6v': 12, 'd3h': 12, 'd6h': 24, 't': 12, 'th': 24, 'o': 24, 'td': 24, 'oh': 48}
LT = {'ci': 'triclinic', 'c2h': 'monoclinic', 'd2h': 'orthorhombic', 'c4h': 'tetragonal', 'd4h': 'tetragonal',
      's6': 'trigonal', 'd3d': 'trigonal', 'c6h': 'hexagonal', 'd6h': 'hexagonal', 'th': 'cubic', 'oh': 'cubic'}
NLAUE = {'ci': 1, 'c2h': 2, 'd2h': 4, 'c4h': 4, 'd4h': 8, 's6': 3, 'c3i': 3, 'd3d': 6, 'c6h': 6, 'd6h': 12, 'th': 12, 'oh': 24, 'vh': 4, 's2': 1}
REQ = {'triclinic': 6, 'monoclinic': 4, 'orthorhombic': 3, 'tetragonal': 2, 'trigonal': 2, 'hexagonal': 2, 'cubic': 1}


@check.obligations('space-group object: point group, Laue group, lattice type', [
    G + 'SpaceGroup.laueGroup', G + 'SpaceGroup.pointGroup', G + 'SpaceGroup.latticeType', G + 'SpaceGroup.sixLatticeParams',
    G + 'SpaceGroup.reqParams'])
def _(v):
    from hexrd.core.material import spacegroup as sg, symmetry as sy, symbols
    p = [sym(f'p{k}') for k in range(6)]
    for n in range(1, 231):
        g = sg.SpaceGroup(n)
        SG, PG, LG, cen, _s = groups()[n, 0]
        v.ground(f'{n} point group order', ORD.get(g.pointGroup) == len(PG), f'{n} {g.pointGroup}', sgnum=n)
        v.ground(f'{n} Laue group order', ORD.get(g.laueGroup) == len(LG), f'{n} {g.laueGroup}', sgnum=n)
        # distinguish equal orders by the element orders (trace, determinant)
        v.ground(f'{n} Laue class', sig(LG) == LSIG[g.laueGroup], f'{n} {g.laueGroup}', sgnum=n)
        v.ground(f'{n} lattice type', g.latticeType == LT[g.laueGroup] == sy.latticeType(n) == sy.ltypeOfLaueGroup(g.laueGroup),
                 f'{n} {g.latticeType}', sgnum=n)
        v.ground(f'{n} required parameters', len(g.reqParams) == REQ[g.latticeType], str(g.reqParams), sgnum=n)
        six = g.sixLatticeParams(tuple(p[:REQ[g.latticeType]]))
        v.ground(f'{n} six lattice parameters', len(six) == 6 and all(six[r] is p[k] for k, r in enumerate(g.reqParams)),
                 f'{n} {six}', sgnum=n)
        # metric tensor of the completed parameters is invariant under every operation, for all values
        cs = lambda x: (tm.cos(x) if isinstance(x, T) else num({90: 0, 120: tm.Fraction(-1, 2)}[x], 'R'))
        a = [L(x) for x in six[:3]]
        c = [cs(x) for x in six[3:]]
        M = [[a[0] * a[0], a[0] * a[1] * c[2], a[0] * a[2] * c[1]],
             [a[0] * a[1] * c[2], a[1] * a[1], a[1] * a[2] * c[0]],
             [a[0] * a[2] * c[1], a[1] * a[2] * c[0], a[2] * a[2]]]
        key = (tuple(sorted(mats(LG))), str(six))
        if key in SEEN:
            continue
        SEEN.add(key)
        for w in sorted(mats(LG)):
            W = [[num(w[3 * i + j], 'R') for j in range(3)] for i in range(3)]
            W_ = matmul(matmul(tr(W), M), W)
            v.prove(f'{n} metric invariant under {w}', [], and_(*[eq(W_[i][j], M[i][j]) for i in range(3) for j in range(i, 3)]))
    SEEN.clear()


SEEN = set()


def sig(L_):
    out = {}
    for m in L_:
        m = np.asarray(m, float)
        k = (int(round(np.linalg.det(m))), int(round(np.trace(m))))
        if k[0] > 0:
            out[k[1]] = out.get(k[1], 0) + 1
    return out


# trace -> count of proper elements: identity 3, twofold -1, threefold 0, fourfold 1, sixfold 2
LSIG = {'ci': {3: 1}, 'c2h': {3: 1, -1: 1}, 'd2h': {3: 1, -1: 3}, 'c4h': {3: 1, -1: 1, 1: 2}, 'd4h': {3: 1, -1: 5, 1: 2},
        's6': {3: 1, 0: 2}, 'd3d': {3: 1, 0: 2, -1: 3}, 'c6h': {3: 1, 0: 2, -1: 1, 2: 2}, 'd6h': {3: 1, 0: 2, -1: 7, 2: 2},
        'th': {3: 1, 0: 8, -1: 3}, 'oh': {3: 1, 0: 8, -1: 9, 1: 6}}


@check.obligations('symbol tables are consistent and invertible', [G + '_buildDict', G + '_map_sg_info'])
def _(v):
    from hexrd.core.material import spacegroup as sg, symbols
    v.ground('all 230 numbers have symbols', sorted(sg.lookupHall) == list(range(1, 231)) == sorted(sg.lookupHM))
    for n in range(1, 231):
        v.ground(f'{n} Hall lookup inverts', sg.Hall_to_sgnum[sg.lookupHall[n]] == n, sgnum=n)
        v.ground(f'{n} HM lookup inverts', sg.HM_to_sgnum[sg.lookupHM[n]] == n, sgnum=n)
        c = {sg.lookupHall[n].lstrip('-')[0], sg.lookupHM[n][0].upper(), symbols.pstr_spacegroup[n - 1].strip()[0]}
        v.ground(f'{n} centring letters agree', len(c) == 1, f'{n} {c}', sgnum=n)
    for k, h in sg.sgid_to_hall.items():
        v.ground(f'{k} id round trip', hall.group(h) == hall.group(sg.sgid_to_hall[sg.hall_to_sgid[h]]), k)
        n = int(k.split(':')[0])
        v.ground(f'{k} is a setting of its group', len(sys_ops(h)) == len(sys_ops(sg.lookupHall[n])) and
                 sigw(h) == sigw(sg.lookupHall[n]), k, sgid=k)
    v.ground('settings of both tables', list(sg.sgid_to_hall) == list(sg.sgid_to_hm))


def sys_ops(h):
    return {w for w, t in hall.group(h)}


def sigw(h):
    out = {}
    for w in sys_ops(h):
        m = np.array(w).reshape(3, 3)
        k = (int(round(np.linalg.det(m))), int(np.trace(m)))
        out[k] = out.get(k, 0) + 1
    return out


@check.obligations('Laue group quaternions form the rotation group of the class', [R + 'quatOfLaueGroup', R + 'quatOfAngleAxis'])
def _(v):
    from hexrd.core import rotations as rot
    for tag, n in NLAUE.items():
        for t in (tag, tag.upper()):
            q = np.asarray(rot.quatOfLaueGroup(t))
            v.ground(f'{t} shape', q.shape == (4, n), f'{t} {q.shape}', tag=t)
            v.ground(f'{t} unit', bool(np.allclose((q ** 2).sum(0), 1)), tag=t)
            m = [nqmat(x) for x in q.T]
            dist = [[np.abs(a - b).max() for b in m] for a in m]
            v.ground(f'{t} distinct', all(dist[i][j] > 1e-6 for i in range(n) for j in range(i)), tag=t)
            v.ground(f'{t} closed', all(min(np.abs(a @ b - c).max() for c in m) < 1e-9 for a in m for b in m), tag=t)
            v.ground(f'{t} closed under inverse', all(min(np.abs(a.T - c).max() for c in m) < 1e-9 for a in m), tag=t)
            k = {'vh': 'd2h', 's2': 'ci', 'c3i': 's6'}.get(tag, tag)
            v.ground(f'{t} class', sig(m) == LSIG[k], f'{t} {sig(m)}', tag=t)
    for bad in ('xyz', 3):
        try:
            rot.quatOfLaueGroup(bad)
            v.ground(f'unknown tag {bad} rejected', False)
        except RuntimeError:
            v.ground(f'unknown tag {bad} rejected', True)


@check.obligations('orientation symmetry agrees with the operations in the crystal frame', [R + 'quatOfLaueGroup', 'hexrd.core.material.crystallography:latticeVectors'])
def _(v):
    """the orientation-space Laue operators are the crystal's own operators in its Cartesian frame"""
    from hexrd.core.material import spacegroup as sg, crystallography as xt
    from hexrd.core import rotations as rot
    lp = {'triclinic': [4., 5, 6, 85, 95, 100], 'monoclinic': [4., 5, 6, 105], 'orthorhombic': [4., 5, 6], 'tetragonal': [4., 6],
          'trigonal': [4., 6], 'hexagonal': [4., 6], 'cubic': [4.]}
    for n in range(1, 231):
        g = sg.SpaceGroup(n)
        F = xt.latticeVectors(lp[g.latticeType], tag=g.latticeType)['F']
        Q = [nqmat(x) for x in rot.quatOfLaueGroup(g.laueGroup).T]
        Fi = np.linalg.inv(F)
        P = [F @ m @ Fi for m in groups()[n, 0][2] if np.linalg.det(m) > 0]
        ok = len(P) == len(Q) and all(min(np.abs(p - q).max() for q in Q) < 1e-8 for p in P)
        if not ok and v.run_.known(f'laue-frame-{n}', '', {}):
            continue
        v.ground(f'{n} operators agree', ok, f'space group {n}: orientation operators of {g.laueGroup} are not the crystal operators', sgnum=n)


@check.obligations('point-group generation is closed for all 32 classes', [S + 'GeneratePGSYM', S + 'MakeGenerators_PGSYM'])
def _(v):
    from hexrd.core.material import symmetry as sy
    from hexrd.core import constants
    fast_isnew()
    for pg in ORD:
        m = sy.GeneratePGSYM(pg)
        s = mats(m)
        v.ground(f'{pg} order', len(m) == ORD[pg] == len(s), f'{pg}: {len(m)} operations', pointgroup=pg)
        cl = all(tuple(int(round(x)) for x in (np.array(a).reshape(3, 3) @ np.array(b).reshape(3, 3)).ravel()) in s for a in s for b in s)
        v.ground(f'{pg} closed', cl, pg, pointgroup=pg)
    v.ground('32 classes', sorted(constants.SYM_GL_PG) == sorted(ORD))


@check.runtime('memoised generator returns the same group on every call', [S + 'GenerateSGSym'], n=12)
def _(t):
    from hexrd.core.material import symmetry as sy
    fast_isnew()
    for _k in t.cases():
        n = int(t.rng.integers(1, 231))
        s = int(t.rng.integers(0, 2))
        for _r in range(2):
            got = sy.GenerateSGSym(n, s) if s else sy.GenerateSGSym(n)
            t.expect(set(asint(got[0]) or []) == set(hall.group(hallof(n, s))), f'space group {n} setting {s}', sgnum=n, setting=s)
