from .common import *
from .X02 import rand_lp
import itertools
import numpy as np

check = Check('X03', assumptions=[
    'the selection and ordering obligations hold for any number of reflections (mask round trip) or for every ordering of up to four reflections with arbitrary angles',
    'numpy.argsort returns the sorting permutation (external)'])
M = 'hexrd.core.material.crystallography:'
P = M + 'PlaneData'
I = sym('i', 'I')


@check.obligations('exclusions read back as set, for any number of reflections and any sorting permutation', [P + '.exclusions', P + '._thisHKL'])
def _(v):
    C = v.lift(P)
    n = v.dim('n')
    srt, inv = v.array('sort', (n,), 'I'), v.array('inv', (n,), 'I')
    hy = [le(num(1, 'I'), n)]
    zero = num(0, 'I')
    perm = lambda k: [le(zero, srt.el((k,))), lt(srt.el((k,)), n), eq(inv.el((srt.el((k,)),)), k), le(zero, inv.el((k,))), lt(inv.el((k,)), n), eq(srt.el((inv.el((k,)),)), k)]
    hk = hy + [le(zero, I), lt(I, n)] + perm(I)

    class Data:
        def __len__(self):
            return n

        def __getitem__(self, k):
            return dict(tTheta=num(0))
    mask = v.array('mask', (n,), 'B')

    def go():
        s = object.__new__(C)
        s.hklDataList, s.tThSort, s.tThSortInv, s._tThMax, s._exclusions = Data(), srt, inv, None, None
        C.getHKLs = lambda self: ()
        s.exclusions = mask
        return s, s.exclusions, s._thisHKL(I)
    for o in v.run(go, hk):
        s, got, keep = o.value
        v.prove('mask reads back', hk + o.pc, eq(tm.toreal(ite(tm.tobool(got.el((I,))), num(1, 'I'), zero)), tm.toreal(ite(tm.tobool(mask.el((I,))), num(1, 'I'), zero))))
        k = keep if isinstance(keep, bool) else None
        m = tm.tobool(mask.el((I,)))
        if k is None:
            v.prove('reflection kept exactly when not excluded', hk + o.pc, and_(implies(tm.tobool(keep), not_(m)), implies(not_(m), tm.tobool(keep))))
        else:
            v.prove('reflection kept exactly when not excluded', hk + o.pc, not_(m) if k else m)
        v.prove('stored per reflection, independent of the ordering', hk + o.pc, implies(m, tm.tobool(L(s._exclusions.el((srt.el((I,)),))))))


def planes(C, tth, perm, excl, tmax, widths=None):
    """PlaneData with reflections in the order perm of their angles (contract of _calc)"""
    n = len(perm)
    s = object.__new__(C)
    srt = np.array(perm)
    inv = np.empty(n, int)
    inv[srt] = np.arange(n)
    lifted = any(isinstance(x, tm.T) for x in tth)
    s.tThSort, s.tThSortInv = (snp.asarray(srt), snp.asarray(inv)) if lifted else (srt, inv)
    s.hklDataList = [dict(hklID=int(perm[i]), hkl=np.array([int(perm[i]) + 1, 0, 1]), tTheta=tth[i], dSpacings=sym(f'd{i}'),
                          tThetaLo=sym(f'lo{i}'), tThetaHi=sym(f'hi{i}'),
                          symHKLs=np.array([[int(perm[i]) + 1, -int(perm[i]) - 1], [0, 0], [1, 1]])) for i in range(n)]
    s._tThMax, s._exclusions = tmax, None
    s.tThWidth = None
    s._hkls = None
    return s


@check.obligations('every view of the reflections lists the same included ones in two-theta order, for masks, index lists, ranges and a two-theta limit', [
    P + x for x in ('.exclusions', '._thisHKL', '.getTTh', '.getPlaneSpacings', '.getHKLs', '.getSymHKLs', '.getMultiplicity', '.getTThRanges', '._getTThRange', '.tThMax', '.getNhklRef', '.hkls')])
def _(v):
    C = v.lift(P)
    for n in (2, 3, 4):
        tth = [v.reals(f't{i}') for i in range(n)]
        hy = [lt(num(0), tth[0])] + [le(a, b) for a, b in zip(tth, tth[1:])]
        perms = list(itertools.permutations(range(n)))
        if n == 4:
            perms = [(1, 2, 3, 0), (2, 3, 1, 0), (1, 0, 3, 2), (3, 0, 1, 2)]
        for perm in perms:
            modes = [('mask', [bool(x >> k & 1) for k in range(n)], [k for k in range(n) if x >> k & 1]) for x in range(2 ** n)]
            if n > 2:
                modes = modes[1::3]
                modes += [('index', [k], [k]) for k in range(n)] + [('indices', [0, n - 1], [0, n - 1]), ('range', [[1, n]], list(range(1, n))), ('range', [[0, 2]], [0, 1])]
            for kind, val, out in modes:
                for lim in (False, True):
                    tmax = v.reals('tmax') if lim else None

                    def go():
                        s = planes(C, tth, perm, None, None)
                        s.exclusions = np.array(val)
                        s.tThMax = tmax
                        keep = [k for k in range(n) if s._thisHKL(k)]
                        ex = s.exclusions
                        ex = [bool(tm.tobool(L(ex[k]))) for k in range(n)]
                        h = s.getHKLs()
                        sy = s.getSymHKLs(withID=True)
                        byid = [s.getHKLs(int(perm[k])) for k in keep]
                        return keep, ex, list(s.getTTh()), s.getPlaneSpacings(), h, sy, byid, s.getMultiplicity(), s.getTThRanges(), s.nHKLs, len(s.getTTh(allHKLs=True))
                    for o in v.run(go, hy, max_paths=200):
                        keep, ex, tt, ds, h, sy, byid, mu, rg, nh, total = o.value
                        hp = hy + o.pc
                        tag = f'{perm} {kind} {val} limit={lim}'
                        for k in range(n):
                            cond = FALSE if k in out else (le(tth[k], tmax) if lim else TRUE)
                            v.prove(f'{tag}: reflection {k} included exactly when wanted', hp, cond if k in keep else not_(cond))
                        v.require(f'{tag}: exclusions complement the included reflections', [not e for e in ex] == [k in keep for k in range(n)], str((ex, keep)))
                        v.require(f'{tag}: two-theta list', len(tt) == len(keep) and all(L(a) is L(tth[k]) for a, k in zip(tt, keep)), str(tt))
                        v.require(f'{tag}: spacings', len(ds) == len(keep) and all(L(a) is sym(f'd{k}') for a, k in zip(ds, keep)))
                        hk = [[int(str(L(x))) for x in r] for r in (snp.asarray(h).a.tolist() if len(keep) else [])]
                        v.require(f'{tag}: hkl list', hk == [[perm[k] + 1, 0, 1] for k in keep], str(hk))
                        v.require(f'{tag}: symmetry-equivalent hkls with IDs', [[int(float(str(L(x)))) for x in a.a[0]] if isinstance(a, snp.ndarray) else [int(x) for x in a[0]] for a in sy] == [[perm[k]] * 2 for k in keep], str(sy)[:200])
                        v.require(f'{tag}: lookup by ID', len(byid) == len(keep))
                        v.require(f'{tag}: counts', int(str(L(nh))) == len(keep) and len(mu) == len(keep) and len(rg) == len(keep) and total == n, str((nh, len(mu), len(rg), total)))


@check.obligations('hkl IDs: the master ID names the reflection, the index its place among the included ones, for every ordering and mask of up to four reflections', [P + '.getHKLID', P + '._getHKLID', P + '.getHKLs'])
def _(v):
    from hexrd.core.material.crystallography import PlaneData as C
    for n in (1, 2, 3, 4):
        for perm in itertools.permutations(range(n)):
            for x in range(2 ** n - 1):
                mask = np.array([bool(x >> k & 1) for k in range(n)])
                s = planes(C, [0.1 * (k + 1) for k in range(n)], perm, None, None)
                s.exclusions = mask
                keep = [k for k in range(n) if not mask[k]]
                data = dict(perm=perm, mask=mask)
                v.ground(f'{perm} {x}: master IDs', [int(q) for q in s.getHKLID(s.hkls, master=True)] == [perm[k] for k in keep], 'master IDs', **data)
                v.ground(f'{perm} {x}: indices', [int(q) for q in s.getHKLID(s.hkls)] == list(range(len(keep))), 'indices', **data)
                v.ground(f'{perm} {x}: by tuple', [s.getHKLID(tuple(int(q) for q in h)) for h in s.getHKLs()] == list(range(len(keep))), 'tuples', **data)
                for k in range(n):
                    try:
                        ok = [int(q) for q in s.getHKLs(perm[k])[0]] == [perm[k] + 1, 0, 1] and k in keep
                    except RuntimeError:
                        ok = k not in keep
                    v.ground(f'{perm} {x}: reflection by ID {k}', ok, 'by ID', id=perm[k], **data)


@check.obligations('merged ranges: consecutive overlapping ranges form one group from its lowest to its highest limit', [P + '.getMergedRanges'])
def _(v):
    C = v.lift(P)
    for n in (1, 2, 3, 4):
        lo, hi, tt = v.reals('lo', (n,)), v.reals('hi', (n,)), v.reals('t', (n,))
        hy = [lt(lo[k], tt[k]) for k in range(n)] + [lt(tt[k], hi[k]) for k in range(n)]
        hy += [le(a[k], a[k + 1]) for a in (lo, hi, tt) for k in range(n - 1)]
        rng = snp.ndarray.conc(np.stack([lo.a, hi.a], 1), np.dtype(float))

        def go():
            s = object.__new__(C)
            C.getTTh = lambda self: tt
            C.getTThRanges = lambda self: rng
            return s.getMergedRanges()
        for o in v.run(go, hy, max_paths=100):
            ids, r = o.value
            h = hy + o.pc
            v.require(f'{n}: groups partition the reflections in order', [k for g in ids for k in g] == list(range(n)) and len(ids) == len(r), str(ids))
            for g, q in zip(ids, r):
                v.prove(f'{n} {ids}: limits of {g}', h, and_(eq(L(q[0]), lo[g[0]]), eq(L(q[1]), hi[g[-1]])))
                for a, b in zip(g, g[1:]):
                    v.prove(f'{n} {ids}: {a} and {b} overlap', h, le(lo[b], hi[a]))
            for g, f in zip(ids, ids[1:]):
                v.prove(f'{n} {ids}: separate groups do not overlap', h, lt(hi[g[-1]], lo[f[0]]))


@check.obligations('two-theta ranges: half the width either side, or the Bragg angles of the strained spacings', [P + '._getTThRange', P + '.getTThRanges'])
def _(v):
    C = v.lift(P)
    n = 2
    tth = [v.reals(f't{i}') for i in range(n)]
    w, wl, st = v.reals('w'), v.reals('wl'), v.reals('st')
    hy = [lt(num(0), wl), lt(num(0), st), lt(st, num(1))] + [lt(num(0), sym(f'd{k}')) for k in range(n)]
    hy += [lt(wl, 2 * sym(f'd{k}') * (1 - st)) for k in range(n)]

    def go(width, strain):
        s = planes(C, tth, (1, 0), None, None)
        s.tThWidth, s._wavelength = width, wl
        return s.getTThRanges(strain)
    for o in v.run(lambda: go(w, None), hy):
        for k in range(n):
            v.prove(f'width: range {k}', hy + o.pc, and_(eq(o.value[k, 0], tth[k] - w * half()), eq(o.value[k, 1], tth[k] + w * half())))
    for o in v.run(lambda: go(None, None), hy):
        for k in range(n):
            v.prove(f'own limits: range {k}', hy + o.pc, and_(eq(o.value[k, 0], sym(f'lo{k}')), eq(o.value[k, 1], sym(f'hi{k}'))))
    for o in v.run(lambda: go(None, st), hy):
        for k in range(n):
            d = sym(f'd{k}')
            for c, sg in ((0, 1), (1, -1)):
                x = o.value[k, c]
                v.prove(f'strain: range {k}{c}', hy + o.pc, eq(tm.sin(x / 2) * 2 * d * (1 + sg * st), wl))


def rand_plane_data(t, k, **kw):
    from hexrd.core.material.crystallography import PlaneData
    laue, lp = [('oh', [4.0]), ('d6h', [3.0, 4.7]), ('d4h', [4.6, 2.96]), ('d2h', [4.1, 5.3, 6.7]), ('c2h', [5.1, 6.2, 4.4, 101.]), ('ci', [5.1, 6.2, 4.4, 81., 97., 104.]), ('d3d', [4.75, 12.99])][k % 7]
    lp = [x * float(t.rng.uniform(.9, 1.1)) if i < 3 and x < 60 else x for i, x in enumerate(lp)]
    allh = [h for h in itertools.product(range(-1, 4), range(0, 4), range(0, 4)) if any(h)]
    seen, hk = set(), []
    for h in t.pr.sample(allh, 30):
        hk.append(h)
        if len(hk) == int(t.rng.integers(3, 14)):
            break
    hkls = np.array(hk).T
    wl = float(t.rng.choice([0.3, 1.2, 2.5]))
    return PlaneData(hkls, lp, laue, wl, 0.01, **kw), hkls, lp, laue, wl


@check.runtime('selections follow the reflections through exclusions, limits and changes of lattice parameters or wavelength', [P], n=150)
def _(t):
    for k in t.cases():
        pd, hkls, lp, laue, wl = rand_plane_data(t, k)
        n = hkls.shape[1]
        data = dict(hkls=hkls, lparms=lp, laue=laue, wavelength=wl)

        def bragg():
            B = pd.latVecOps['B']
            out = {}
            for h in hkls.T:
                s = pd.wavelength * np.linalg.norm(B @ h) / 2
                out.setdefault(tuple(h), 2 * np.arcsin(s) if s <= 1 else np.nan)
            return out

        def views(want, tag):
            b = bragg()
            hk = [tuple(h) for h in pd.getHKLs()] if want else []
            t.expect(sorted(hk) == sorted(want), f'{tag}: included reflections', got=hk, want=sorted(want), **data)
            if not want:
                return
            t.close(pd.getTTh(), [b[h] for h in hk], f'{tag}: angles of the listed reflections', **data)
            tt = pd.getTTh()
            t.expect(np.all(np.diff(tt[~np.isnan(tt)]) >= 0), f'{tag}: increasing two-theta', **data)
            t.close(1 / np.array(pd.getPlaneSpacings()), [np.linalg.norm(pd.latVecOps['B'] @ np.array(h)) for h in hk], f'{tag}: spacings', **data)
            ex = pd.exclusions
            allh = [tuple(h) for h in pd.getHKLs(allHKLs=True)]
            t.expect([h for h, e in zip(allh, ex) if not e] == hk, f'{tag}: exclusions agree with the list', got=ex, **data)
            t.expect([tuple(h) for h in pd.hkls.T] == hk, f'{tag}: hkls', **data)
            for h, s in zip(hk, pd.getSymHKLs()):
                t.expect(h in [tuple(int(q) for q in c) for c in s.T], f'{tag}: equivalents contain the reflection', **data)
            t.expect(len(pd.getSymHKLs()) == len(hk) == len(pd.getMultiplicity()) == len(pd.getTThRanges()) == pd.nHKLs, f'{tag}: lengths', nHKLs=pd.nHKLs, **data)
            pd.structFact = np.array([float(abs(q[0] * 100 + q[1] * 10 + q[2]) + 1) for q in allh])
            t.close(pd.structFact, [abs(q[0] * 100 + q[1] * 10 + q[2]) + 1 for q in hk], f'{tag}: structure factors of the listed reflections', **data)
            ids = pd.getHKLID(pd.hkls, master=True)
            for h, i in zip(hk, ids):
                # equivalent reflections in the list share one entry
                t.expect(abs(b[tuple(hkls[:, i])] - b[h]) < 1e-9 or np.isnan(b[h]), f'{tag}: master ID', id=i, hkl=h, **data)
                t.expect(tuple(hkls[:, i]) in hk, f'{tag}: master ID of an included reflection', id=i, **data)
                t.expect(tuple(pd.getHKLs(int(i))[0]) == tuple(hkls[:, i]), f'{tag}: lookup by ID', id=i, **data)
            for i in range(n):
                if tuple(hkls[:, i]) not in hk:
                    t.raises(RuntimeError, lambda: pd.getHKLs(i), f'{tag}: excluded ID refused', id=i, **data)
                    t.expect(tuple(pd.getHKLs(i, allHKLs=True)[0]) == tuple(hkls[:, i]), f'{tag}: excluded ID on request', id=i, **data)

        allh = lambda: [tuple(h) for h in pd.getHKLs(allHKLs=True)]
        views(allh(), 'all')
        mask = t.rng.uniform(size=n) < .4
        cur = allh()
        pd.exclusions = mask
        keep = [h for h, m in zip(cur, mask) if not m]
        views(keep, 'mask')
        t.expect(np.array_equal(pd.exclusions, mask), 'mask reads back', mask=mask, **data)
        # a change of cell or wavelength reorders the reflections, the selection stays
        if laue != 'oh':
            pd.lparms = [x * (float(t.rng.uniform(.6, 1.6)) if x < 60 else 1) for x in lp]
            views(keep, 'after a change of lattice parameters')
        pd.wavelength = wl * 1.3
        views(keep, 'after a change of wavelength')
        cur = allh()
        if n > 3:
            idx = sorted(t.pr.sample(range(n), int(t.rng.integers(1, n - 1))))
            pd.exclusions = idx
            views([h for j, h in enumerate(cur) if j not in idx], 'index list')
            a = int(t.rng.integers(0, n - 1))
            b = int(t.rng.integers(a + 1, n + 1))
            pd.exclusions = [[a, b]]
            views([h for j, h in enumerate(cur) if not a <= j < b], 'range')
        pd.exclusions = None
        views(cur, 'cleared')
        bb = bragg()
        lim = float(np.nanmedian(list(bb.values())))
        if not np.isnan(lim):
            pd.tThMax = lim + 1e-9
            views([h for h in cur if bb[h] <= lim + 1e-9], 'limit')
            pd.tThMax = None
            views(cur, 'limit removed')
            pd.exclude(tthmax=lim + 1e-9)
            views([h for h in cur if bb[h] <= lim + 1e-9], 'exclude by angle')
            pd.exclude(tthmin=lim - 1e-9)
            views([h for h in cur if bb[h] >= lim - 1e-9], 'exclude below an angle')
        d = {h: 1 / np.linalg.norm(pd.latVecOps['B'] @ np.array(h)) for h in cur}
        m = float(np.median(list(d.values())))
        pd.exclude(dmin=m - 1e-9)
        views([h for h in cur if d[h] >= m - 1e-9], 'exclude by spacing')
        pd.exclude(dmax=m + 1e-9)
        views([h for h in cur if d[h] <= m + 1e-9], 'exclude above a spacing')
        pd.exclude()
        views(cur, 'exclude nothing')
        f = np.array([float(abs(q[0] * 100 + q[1] * 10 + q[2]) + 1) for q in allh()])
        pd.structFact = f
        pd.exclude(sfacmin=.5)
        views([h for h, x in zip(cur, f) if x / f.max() >= .5], 'exclude by structure factor')
        pd.exclude()
        pd.structFact = f
        p = dict(zip(cur, pd.powder_intensity))
        if not np.all(np.isnan(list(p.values()))):
            pd.exclude(pintmin=.3)
            views([h for h in cur if p[h] / 100 >= .3], 'exclude by powder intensity')
        pd.exclude()
        from hexrd.core.material.crystallography import PlaneData
        pd.exclusions = mask
        q = PlaneData(None, pd)
        t.expect(np.array_equal(q.getHKLs(), pd.getHKLs()) and np.array_equal(q.exclusions, pd.exclusions), 'copy keeps the selection', **data)
        q.exclusions = None
        t.expect(np.array_equal(pd.exclusions, mask), 'copies are independent', **data)
        good = ~np.isnan(pd.getTTh(allHKLs=True))
        pd.exclusions = ~good
        if good.sum() > 1:
            for w in (None, .01, .2):
                pd.tThWidth = w
                r = pd.getTThRanges()
                ids, mr = pd.getMergedRanges()
                t.expect([j for g in ids for j in g] == list(range(len(r))), 'merged ranges partition the reflections', **data)
                for g, (a, b) in zip(ids, mr):
                    if np.isnan(r[g]).any():      # a strain-broadened range may reach beyond two-theta = pi
                        continue
                    t.close([a, b], [r[g, 0].min(), r[g, 1].max()], 'merged limits', **data)
                cul, cr = pd.getMergedRanges(cullDupl=True)
                t.close(cr, mr, 'culling duplicates keeps the ranges', **data)
                for g, c in zip(ids, cul):
                    t.expect(set(c) <= set(g) and all(np.min(np.abs(pd.getTTh()[c] - pd.getTTh()[j])) < 1e-6 for j in g), 'culled reflections duplicate a kept one', **data)


@check.runtime('equivalents, scattering vectors and intensities of exactly the included reflections', [P + '.getSymHKLs', P + '._makeScatteringVectors', P + '.makeScatteringVectors', P + '.exclude', P + '.structFact', P + '.powder_intensity', P + '.hedm_intensity', P + '._compute_sf_if_needed'], n=60)
def _(t):
    from hexrd.core import rotations
    from hexrd.core.material.crystallography import hklToStr
    for k in t.cases():
        pd, hkls, lp, laue, wl = rand_plane_data(t, k)
        n = hkls.shape[1]
        data = dict(hkls=hkls, lparms=lp, laue=laue, wavelength=wl)
        pd.exclusions = None
        mask = t.rng.uniform(size=n) < .4
        mask[int(t.rng.integers(n))] = False
        pd.exclusions = mask
        inc = [tuple(int(x) for x in h) for h in pd.hkls.T]
        full = pd.getSymHKLs()
        for h, s in zip(inc, full):
            cols = [tuple(int(round(x)) for x in c) for c in s.T]
            t.expect(len(set(cols)) == len(cols), 'no equivalent twice', hkl=h, got=s, **data)
            t.expect(all(tuple(-x for x in c) in cols for c in cols), 'equivalents with their opposites', hkl=h, got=s, **data)
            l = [np.linalg.norm(pd.latVecOps['B'] @ np.array(c)) for c in cols]
            t.close(l, [l[0]] * len(l), 'equivalents share their spacing', hkl=h, **data)
        t.expect(list(pd.getMultiplicity()) == [s.shape[1] for s in full], 'multiplicity counts the equivalents', **data)
        idx = sorted(set(int(x) for x in t.rng.integers(0, len(inc), 3)))
        sub = pd.getSymHKLs(indices=idx)
        t.expect(len(sub) == len(idx) and all(np.array_equal(a, full[i]) for a, i in zip(sub, idx)), 'equivalents at given places', indices=idx, got=sub, **data)
        strs = pd.getSymHKLs(asStr=True)
        t.expect(strs == [[hklToStr(c) for c in s.T.astype(int)] for s in full], 'equivalents as strings', got=strs, **data)
        t.expect(pd.getSymHKLs(asStr=True, indices=idx) == [strs[i] for i in idx], 'strings at given places', indices=idx, **data)
        wid = pd.getSymHKLs(withID=True)
        ids = pd.getHKLID(pd.hkls, master=True)
        t.expect(all(np.array_equal(a[1:], b) and len(set(a[0])) == 1 for a, b in zip(wid, full)), 'equivalents with one ID each', **data)
        t.expect(all(tuple(hkls[:, int(a[0, 0])]) == h for a, h in zip(wid, inc)), 'the ID names the reflection', **data)

        R = rotations.rotMatOfExpMap(t.rng.normal(size=(3, 1)))
        chi = float(t.rng.choice([0, .1, -.2]))
        B = pd.latVecOps['B']
        qs, a0, a1 = pd._makeScatteringVectors(R, chiTilt=chi)
        t.expect(len(qs) == len(a0) == len(a1) == len(inc), 'scattering vectors of the included reflections', got=len(qs), **data)
        t.close(np.hstack(qs), R @ B @ np.hstack(full), 'scattering vectors in the sample frame', R=R, **data)
        for q, x, y, tth in zip(qs, a0, a1, pd.getTTh()):
            good = ~np.isnan(x[0])
            if good.any():
                t.close(x[0, good], np.full(good.sum(), tth), 'Bragg angle of the reflection', rtol=1e-6, **data)
            for ang in (x, y):
                for j in np.flatnonzero(~np.isnan(ang).any(axis=0)):
                    th, eta, om = ang[:, j]
                    g = np.array([np.cos(th / 2) * np.cos(eta), np.cos(th / 2) * np.sin(eta), np.sin(th / 2)])
                    c, s = np.cos(chi), np.sin(chi)
                    Rs = np.array([[1, 0, 0], [0, c, -s], [0, s, c]]) @ np.array([[np.cos(om), 0, np.sin(om)], [0, 1, 0], [-np.sin(om), 0, np.cos(om)]])
                    t.close(Rs @ q[:, j] / np.linalg.norm(q[:, j]), g, 'the reflection diffracts at the listed angles', rtol=1e-6, atol=1e-6, chi=chi, ang=ang[:, j], **data)

        sf = {h: float(t.rng.uniform(1, 100)) for h in map(tuple, hkls.T.astype(int))}

        class Cell:
            def CalcXRSF(self, hk):
                return np.array([sf[tuple(int(x) for x in h)] for h in hk])

        cur = [tuple(int(x) for x in h) for h in pd.getHKLs(allHKLs=True)]
        tth = pd.getTTh(allHKLs=True)
        mult = pd.getMultiplicity(allHKLs=True)
        # 2theta = pi and the direct beam have no finite Lorentz factor
        if np.isnan(tth).any() or np.any(tth > 3.1):
            continue
        s, c = np.sin(tth / 2), np.cos(tth / 2)
        hed = np.array([sf[h] for h in cur]) * (1 + np.cos(tth) ** 2) / 2 / (s ** 2 * c)
        pow_ = hed * mult
        hed, pow_ = 100 * hed / hed.max(), 100 * pow_ / pow_.max()
        keep = ~pd.exclusions
        for first in ('powder_intensity', 'hedm_intensity', 'structFact'):
            pd.invalidate_structure_factor(Cell())
            getattr(pd, first)
            t.close(pd.structFact, np.array([sf[h] for h in cur])[keep], 'structure factors of the included reflections', **data)
            t.close(pd.hedm_intensity, hed[keep], 'rotation intensities of the included reflections', rtol=1e-9, **data)
            t.close(pd.powder_intensity, pow_[keep], 'powder intensities of the included reflections', rtol=1e-9, **data)
        F = np.array([sf[h] for h in cur])
        for kw, out in ((dict(sfacmin=.4), F / F.max() < .4), (dict(sfacmax=.6), F / F.max() > .6), (dict(pintmin=.3), pow_ < 30), (dict(pintmax=.5), pow_ > 50),
                        (dict(sfacmin=.2, pintmax=.8), (F / F.max() < .2) | (pow_ > 80))):
            pd.exclude(**kw)
            t.expect(np.array_equal(pd.exclusions, out), 'exclusion by intensity', limits=kw, got=pd.exclusions, want=out, **data)
