"""powder rings and line positions"""
from .common import *
import itertools
import warnings
import numpy as np

D = 'hexrd.core.instrument.detector:Detector.make_powder_rings'
DM = 'hexrd.core.instrument.detector'
HM = 'hexrd.core.instrument.hedm_instrument'
XU = 'hexrd.hedm.xrdutil.utils'
GU = 'hexrd.core.gridutil'
check = Check('P02', assumptions=[
    'planar panels and the default azimuth reference for line positions (the patches are made from the saved panel pose)',
    'a sector of constant intensity has no line, as the extraction documents', 'line fits (lmfit) are a dependency'])
D2R = PI / 180


def conc(a, dt=float):
    return snp.ndarray.conc(np.array(a, object), np.dtype(dt))


def X(*a):
    return [app('X', *[tm.toreal(L(x)) for x in a]), app('Y', *[tm.toreal(L(x)) for x in a])]


class Panel:
    def __init__(self):
        self.calls = []

    def angles_to_cart(self, a, rmat_s=None, tvec_s=None, rmat_c=None, tvec_c=None, apply_distortion=False):
        self.calls.append((rmat_s, tvec_s, rmat_c, tvec_c, apply_distortion))
        return conc(np.array([X(*r) for r in snp.asarray(a).a.tolist()], object).reshape(-1, 2))

    def clip_to_panel(self, xy, buffer_edges=True):
        on = np.array([app('on', L(x), L(y), sort='B') for x, y in snp.asarray(xy).a.tolist()], object)
        return None, conc(on, bool)


class PD:
    """plane data: ranges are a function of the width, merged ones another"""
    def __init__(self, n, other=None):
        self.n = other.n if other is not None else n
        self.tThWidth = other.tThWidth if other is not None else None
        self.src = other

    def val(self, name, k):
        return app(name, tm.toreal(L(self.tThWidth)), num(k, 'R'))

    def getTTh(self):
        return conc([app('tth', num(k, 'R')) for k in range(self.n)])

    def getTThRanges(self):
        return conc([[self.val('lo', k), self.val('hi', k)] for k in range(self.n)])

    def getMergedRanges(self, cullDupl=False):
        assert cullDupl
        return [[k] for k in range(self.n - 1)], [[self.val('mlo', k), self.val('mhi', k)] for k in range(self.n - 1)]


class Corr:
    """layer correction"""
    def apply(self, xy, return_nominal=None):
        assert return_nominal is True
        return conc(np.array([[app('ct', L(x), L(y)), app('ce', L(x), L(y))] for x, y in snp.asarray(xy).a.tolist()], object).reshape(-1, 2))


def sectors(v, kinds):
    def mapang(a, rng=None, units='radians'):
        lo, hi = (tm.toreal(L(x)) for x in snp.asarray(rng).a.ravel())
        a = snp.asarray(a)
        v.prove('edges are in the period', [], and_(*[and_(le(lo, L(x)), le(L(x), hi)) for x in a.a.ravel()]))
        return a
    f = v.lift(D, contracts={'hexrd.core.rotations:mapAngle': mapang}, overrides={(DM, 'PlaneData'): PD})
    dt = v.reals('dt')
    R, ts, tc = v.reals('R', (3, 3)), v.reals('ts', (3,)), v.reals('tc', (3,))
    el = v.reals('eta', (2,))
    cases = []
    for nring, (de, ne) in itertools.product((1, 2), ((120., 3), (144., 2), (360., 1))):
        cases.append((nring, de, ne, None, (-PI, PI)))
    cases += [(1, 180., 2, None, (L(0.), 2 * PI)), (1, 10., 2, el, (-PI, PI)), (2, 7., 2, el, (-PI, PI))]
    for (nring, de, ne, lst, per), kind in itertools.product(cases, kinds):
        if (kind == 'pd with width' and ne == 2) or (ne > 2 and (nring == 2 or kind != 'list')) or (nring == 2 and ne == 2 and kind != 'list'):
            continue
        tth = v.reals('t', (nring,))
        if kind == 'list':
            spec, kw = tth, dict(delta_tth=dt)
            cen = [tth.a[k] * D2R for k in range(nring)]
            rng = [[(tth.a[k] - dt / 2) * D2R, (tth.a[k] + dt / 2) * D2R] for k in range(nring)]
        else:
            spec = PD(nring + (kind == 'merged'))
            spec.tThWidth = v.reals('width')
            kw = {} if kind == 'pd' else dict(delta_tth=dt)
            w = spec.tThWidth if kind == 'pd' else dt * D2R
            rv = lambda nm, k: app(nm, w, num(k, 'R'))
            if kind == 'merged':
                kw['merge_hkls'] = True
                rng = [[rv('mlo', k), rv('mhi', k)] for k in range(nring)]
                cen = [(a + b) / 2 for a, b in rng]
            else:
                rng = [[rv('lo', k), rv('hi', k)] for k in range(nring)]
                cen = [app('tth', num(k, 'R')) for k in range(nring)]
        if kind == 'corrected':
            kw['tth_distortion'] = Corr()
            pose = {}
        else:
            pose = dict(rmat_s=R, tvec_s=ts, tvec_c=tc)
        ome = tm.atan2(R.a[0, 2], R.a[0, 0])
        e0 = tm.toreal(L(per[0]))
        hd = L(de) * D2R / 2
        ec = [x * D2R for x in el.a] if lst is not None else [e0 + (2 * k + 1) * hd for k in range(ne)]

        def th():
            p = Panel()
            r = f(p, spec, delta_eta=de, eta_list=lst, eta_period=per, full_output=True, **kw, **pose)
            mat = lambda xs: [snp.asarray(x).a for x in xs]
            return (mat(r[0]), mat(r[1]), r[2], mat(r[3]), r[4]), p.calls
        name = f'{kind} {nring}x{ne}'
        for o in v.run(th, max_paths=600):
            (ang, xy, tr_, idx, ee), calls = o.value
            v.require(f'{name}: rings', len(ang) == len(xy) == len(idx) == nring and snp.asarray(tr_).shape == (nring, 2), '')
            if pose:
                v.require(f'{name}: sample frame', all(c[0] is R and c[1] is ts and c[2] is None and c[3] is tc and c[4] for c in calls), '')
            ee = [L(x) for x in snp.asarray(ee).a]
            if lst is None:
                v.require(f'{name}: number of edges', len(ee) == ne + 1, '')
                v.prove(f'{name}: edges', o.pc, and_(*[eq(x, e0 + 2 * k * hd) for k, x in enumerate(ee)]))
            else:
                v.prove(f'{name}: edges', o.pc, and_(*[eq(ee[2 * k + s], c + (2 * s - 1) * hd) for k, c in enumerate(ec) for s in (0, 1)]))
            for k in range(nring):
                trk = snp.asarray(tr_).a[k]
                v.prove(f'{name}: range of the ring', o.pc, and_(eq(trk[0], rng[k][0]), eq(trk[1], rng[k][1])))
                on = [and_(*[app('on', *X(t, e), sort='B') for t, e in [(rng[k][0], c - hd), (rng[k][0], c + hd), (rng[k][1], c - hd), (rng[k][1], c + hd), (cen[k], c)]]) for c in ec]
                got = [L(x) for x in idx[k]]
                v.require(f'{name}: one flag per sector', len(got) == ne, '')
                A, Y = ang[k], xy[k]
                kept = 0
                for j in range(ne):
                    # the flag of a sector is decided on each path
                    flag = None
                    for val, c in ((True, on[j]), (False, not_(on[j]))):
                        if tm.tobool(got[j]) is (TRUE if val else FALSE):
                            flag = val
                    if flag is None:
                        flag = v_decide(o.pc, tm.tobool(got[j]))
                    v.prove(f'{name}: kept iff wholly on the panel', o.pc, eqb(tm.tobool(got[j]), on[j]))
                    if flag is None:
                        v.require(f'{name}: sector decided', False, str(o.pc)[:900]+' GOT '+str(got[j])+' ON '+str(on[j]))
                        continue
                    v.prove(f'{name}: presence', o.pc, on[j] if flag else not_(on[j]))
                    if flag:
                        c = (cen[k], ec[j])
                        if kind == 'corrected':
                            c = app('ct', *X(*c)), app('ce', *X(*c))
                        v.prove(f'{name}: centre of the sector', o.pc, and_(eq(A[kept, 0], c[0]), eq(A[kept, 1], c[1])))
                        x = X(c[0], c[1])
                        v.prove(f'{name}: position of the centre', o.pc, and_(eq(Y[kept, 0], x[0]), eq(Y[kept, 1], x[1])))
                        kept += 1
                v.require(f'{name}: only these', A.shape == (kept, 2) and Y.shape == (kept, 2), f'{A.shape} {kept}')


for _kinds in (('list',), ('pd', 'pd with width'), ('merged', 'corrected')):
    check.obligations('sectors of a ring, ' + _kinds[0], [D])(lambda v, k=_kinds: sectors(v, k))


@check.obligations('width of a ring', [D])
def _(v):
    f = v.lift(D, overrides={(DM, 'PlaneData'): PD})
    for sp, kw, ex in ((v.reals('t', (1,)), {}, RuntimeError), (PD(2), {}, ValueError)):
        for o in v.run(lambda: f(Panel(), sp, **kw), allow_exc=True):
            v.require('width needed', isinstance(o.exc, ex), repr(o.exc))


def eqb(p, q):
    return and_(or_(not_(p), q), or_(p, not_(q)))


def v_decide(pc, c):
    """the literal value of a conjunction on a path whose conditions are literals"""
    lits = set()
    for p in pc:
        for x in (p.args if p.op == 'and' else [p]):
            lits.add(x)
    parts = list(c.args) if c.op == 'and' else [c]
    if all(x in lits for x in parts):
        return True
    if c in lits:
        return True
    if not_(c) in lits or any(not_(x) in lits for x in parts):
        return False
    return None


def intensity(v, n, nim):
    got = {}
    A = v.reals('ang', (n, 2))
    xy = v.reals('xy', (n, 2))
    area = v.reals('parea')
    shape = (2, 2)
    vt, ve = [v.reals(f'vt{k}', (3, 3)) for k in range(n)], [v.reals(f've{k}', (3, 3)) for k in range(n)]
    ar = [v.reals(f'ar{k}', shape) for k in range(n)]
    ex, ey = [v.reals(f'ex{k}', shape) for k in range(n)], [v.reals(f'ey{k}', shape) for k in range(n)]
    ij = (snp.asarray(np.array([[0, 1], [1, 0]])), snp.asarray(np.array([[0, 0], [1, 1]])))
    imgs = v.reals('im', (nim, 2, 2))
    which = [True] * n

    class P:
        pixel_area = area
        on = which

        def angularPixelSize(self, q):
            return ('pix', q)

        def clip_to_panel(self, q):
            k = [i for i in range(n) if snp.asarray(q).a[0, 0] is ex[i].a[0, 0]][0]
            pts = [(a, b) for a, b in zip(ex[k].a.ravel(), ey[k].a.ravel())]
            assert all(a is c[0] and b is c[1] for (a, b), c in zip(pts, snp.asarray(q).a.tolist()))
            return None, snp.asarray(np.array([True, True, True, self.on[k]]))

        def interpolate_bilinear(self, q, im):
            k = [i for i in range(nim) if all(a is b for a, b in zip(snp.asarray(im).a.ravel(), imgs.a[i].ravel()))][0]
            return conc([app(f'I{k}', L(a), L(b)) for a, b in snp.asarray(q).a.tolist()])

    def patches(cfg, angs, pix, tth_tol=None, eta_tol=None, npdiv=None, quiet=None, **k):
        assert not k
        got['patch'] = (cfg, angs, pix, tth_tol, eta_tol, npdiv)
        return iter([((vt[k], ve[k]), ('vx', k), 'conn', ar[k], (ex[k], ey[k]), ij) for k in range(n)])
    f = v.lift(HM + ':_extract_ring_line_positions', contracts={XU + ':make_reflection_patches': patches})
    hyps = [lt(num(0), area)]
    pos = [lt(num(0), app(f'I{k}', L(a), L(b))) for k in range(nim) for j in range(n) for a, b in zip(ex[j].a.ravel(), ey[j].a.ravel())]
    for interp, ct, ce in itertools.product((True, False), (False, True), (True, False)):
        if ct and ce:
            continue
        for on in ([True] * n, [False] + [True] * (n - 1)):
            def th():
                p = P()
                p.on = on
                return f((A, xy, 'tol', 'tth0'), 'cfg', p, 'etol', 'npdiv', ct, ce, [imgs[k] for k in range(nim)], interp, False, {}, None), dict(got)
            # intensities differ within a sector, so no sector is skipped as flat
            for o in v.run(th, hyps, max_paths=3000):
                r, g = o.value
                cfg, angs, pix, tt, et, nd = g['patch']
                v.require('patches of the sectors', cfg == 'cfg' and tt == 'tol' and et == 'etol' and nd == 'npdiv' and snp.asarray(angs).shape == (n, 2) and pix[0] == 'pix', '')
                v.prove('angles of the sectors', hyps + o.pc, and_(*[eq(snp.asarray(angs).a[i, j], A.a[i, j]) for i in range(n) for j in (0, 1)]))
                keep = [k for k in range(n) if on[k]]

                def val(k, q, i, j):
                    fac = tm.absv(ar[k].a[i, j]) / area
                    w = app(f'I{q}', ex[k].a[i, j], ey[k].a[i, j]) if interp else imgs.a[q][int(ij[0].a[i, j].args[0]), int(ij[1].a[i, j].args[0])]
                    return w * fac

                def flat(k, q):
                    c = [val(k, q, i, j) for i in (0, 1) for j in (0, 1)]
                    mx, mn = tm.maxv(tm.maxv(c[0], c[1]), tm.maxv(c[2], c[3])), tm.minv(tm.minv(c[0], c[1]), tm.minv(c[2], c[3]))
                    return mx, mn
                if ct:
                    r = snp.asarray(r)
                    v.require('one row per sector', r.shape == (n, nim), str(r.shape))
                    for k in range(n):
                        for q in range(nim):
                            avg = sum_([val(k, q, i, j) for i in (0, 1) for j in (0, 1)]) / 4
                            if k in keep:
                                v.prove('mean intensity, or flat', hyps + o.pc, or_(eq(r.a[k, q], avg), eq(r.a[k, q], num(0))))
                            else:
                                v.prove('off the panel', hyps + o.pc, eq(r.a[k, q], num(0)))
                    continue
                v.require('sectors on the panel, in order', len(r) == len(keep), str(len(r)))
                for k, (ang, data) in zip(keep, r):
                    if ce:
                        c = snp.asarray(ang[0]).a
                        v.prove('two-theta of the bins', hyps + o.pc, and_(*[eq(c[j], (vt[k].a[0, j] + vt[k].a[0, j + 1]) / 2) for j in (0, 1)]))
                        v.prove('azimuth of the sector', hyps + o.pc, eq(L(ang[1]), A.a[k, 1]))
                    else:
                        v.require('angles of the vertices', ang[0] is vt[k] and ang[1] is ve[k], '')
                    v.require('at most one entry per image', len(data) <= nim, '')
                    opts = list(itertools.combinations(range(nim), len(data))) if data else []
                    gl = []
                    for qs in opts:
                        g_ = []
                        for q, d in zip(qs, data):
                            d = snp.asarray(d).a
                            if ce:
                                g_ += [eq(d[j], (val(k, q, 0, j) + val(k, q, 1, j)) / 2) for j in (0, 1)]
                            else:
                                g_ += [eq(d[i, j], val(k, q, i, j)) for i in (0, 1) for j in (0, 1)]
                        gl.append(and_(*g_))
                    if gl:
                        v.prove('intensity times cell area in pixels', hyps + o.pc, or_(*gl))


for _n in ((2, 1), (1, 2)):
    check.obligations(f'intensity of {_n[0]} sectors, {_n[1]} images', [HM + ':_extract_ring_line_positions'])(lambda v, k=_n: intensity(v, *k))


@check.obligations('sectors of each panel', [HM + ':_extract_detector_line_positions', HM + ':HEDMInstrument.extract_line_positions'])
def _(v):
    log = []

    class Pool:
        def __init__(self, mp_context=None, max_workers=None):
            log.append(('pool', max_workers))

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def map(self, fn, it):
            return [fn(x) for x in it]
    ring = v.reals('tr', (2, 2))
    tol, etol, wid = v.reals('tol'), v.reals('etol'), v.reals('wid')

    class P:
        name = 'pan'

        def make_powder_rings(self, pd, **k):
            log.append(('rings', pd, k))
            return ['a0', 'a1'], ['x0', 'x1'], ring

    def one(args, **k):
        log.append(('ring', args, k))
        return ('data', args[0])
    f = v.lift(HM + ':_extract_detector_line_positions', contracts={HM + ':_extract_ring_line_positions': one},
               overrides={(HM, 'ProcessPoolExecutor'): Pool, (HM, 'tqdm'): lambda it, **k: it, (HM, 'PlaneData'): PD})
    im2, im3 = v.reals('im', (2, 3)), v.reals('jm', (2, 2, 3))
    lst = v.reals('t', (2,))
    for images, given, corr, tt in itertools.product((im2, im3), ('list', 'pd'), (None, {'pan': 'corr'}), (None, tol)):
        if given == 'list' and tt is None:
            continue
        pd = lst if given == 'list' else PD(3)
        if given == 'pd':
            pd.tThWidth = wid

        def th():
            log.clear()
            p = P()
            r = f((p, 'cfg', images, 4), pd, tt, etol, 'centers', 'npdiv', 'ct', 'ce', 'interp', 'fit', 'fkw', corr, 3)
            return r, list(log), p
        for o in v.run(th):
            r, lg, p = o.value
            v.require('one entry per ring, in order', r == [('data', 'a0'), ('data', 'a1')], str(r))
            rg = [x for x in lg if x[0] == 'rings'][0]
            k = rg[2]
            v.require('rings', rg[1] is pd and k == dict(merge_hkls=True, delta_tth=tt, delta_eta=etol, eta_list='centers', tth_distortion=corr and 'corr'), str(k))
            calls = [x for x in lg if x[0] == 'ring']
            for j, (_, a, k) in enumerate(calls):
                v.require('ring', a[:2] == (f'a{j}', f'x{j}') and k['instr_cfg'] == 'cfg' and k['panel'] is p and k['eta_tol'] is etol and k['npdiv'] == 'npdiv' and k['collapse_tth'] == 'ct'
                          and k['collapse_eta'] == 'ce' and k['do_interpolation'] == 'interp' and k['do_fitting'] == 'fit' and k['fitting_kwargs'] == 'fkw' and k['tth_distortion'] == (corr and 'corr'), str(k))
                v.prove('width of the ring', o.pc, eq(L(a[2]), (ring.a[j, 1] - ring.a[j, 0]) * 180 / PI))
                ims = snp.asarray(k['images'])
                w = im3.a if images is im3 else im2.a[None]
                v.require('images', ims.shape == w.shape and all(x is y for x, y in zip(ims.a.ravel(), w.ravel())), str(ims.shape))
                if given == 'list':
                    v.prove('reference of the ring', o.pc, eq(L(a[3]), lst.a[j]))
                else:
                    t0 = snp.asarray(a[3]).a
                    v.require('references of the ring', len(t0) == 1, '')
                    v.prove('references of the ring', o.pc, eq(t0[0], app('tth', num(j, 'R')) * 180 / PI))
            if given == 'pd':
                v.require('plane data unchanged', pd.tThWidth is wid, '')
    for o in v.run(lambda: f((P(), 'cfg', lst, 4), lst, tol, etol, None, 1, 0, 0, 0, 0, 0, None, 3), allow_exc=True):
        v.require('images are 2- or 3-d', isinstance(o.exc, RuntimeError), repr(o.exc))
    # all panels
    log2 = []

    def det(args, **k):
        log2.append((args, k))
        return ('panel', args[0].k)

    class Q:
        def __init__(self, k):
            self.k, self.roi, self.group = k, ('roi', k), ('group', k)

        def config_dict(self, **k):
            return (self.k, k)
    g = v.lift(HM + ':HEDMInstrument.extract_line_positions', contracts={HM + ':_extract_detector_line_positions': det, HM + ':_parse_imgser_dict': lambda d, k, roi=None, group=None: (d[k], roi, group)},
               overrides={(HM, 'ProcessPoolExecutor'): Pool, (HM, 'tqdm'): lambda it, **k: it})

    class Self:
        chi, tvec, beam_energy, beam_vector = 'chi', 'tvec', 'E', 'b'
        max_workers = 8
        num_panels = 3
        detectors = {k: Q(k) for k in 'xyz'}

    def th2():
        log2.clear()
        return g(Self(), 'pd', dict(x=1, y=2, z=3), tth_tol='tt', eta_tol='et', npdiv='n', eta_centers='c', collapse_eta='ce', collapse_tth='ct', do_interpolation='i', do_fitting='f', tth_distortion='d', fitting_kwargs={'q': 1}), list(log2)
    for o in v.run(th2):
        r, lg = o.value
        v.require('panels', r == {k: ('panel', k) for k in 'xyz'}, str(r))
        for k, (a, kw) in zip('xyz', lg):
            v.require('panel', a[0].k == k and a[1] == (k, dict(chi='chi', tvec='tvec', beam_energy='E', beam_vector='b', style='hdf5')) and a[2] == ('xyz'.index(k) + 1, ('roi', k), ('group', k)), str(a))
            kw = {q: w for q, w in kw.items() if q != 'max_workers'}
            v.require('options', kw == dict(plane_data='pd', tth_tol='tt', eta_tol='et', eta_centers='c', npdiv='n', collapse_tth='ct', collapse_eta='ce', do_interpolation='i', do_fitting='f', fitting_kwargs={'q': 1}, tth_distortion='d'), str(kw))


@check.obligations('cells of a sector', [XU + ':make_reflection_patches', GU + ':make_tolerance_grid', GU + ':cellConnectivity', GU + ':cellCentroids', GU + ':compute_areas'])
def _(v):
    seen = {}

    def proj(a, rd, rc, chi, td, tc, ts, dist, beamVec=None, **k):
        assert not k
        seen.setdefault('p', []).append((rd, rc, chi, td, tc, ts, dist, beamVec))
        return conc(np.array([[app(q, *[tm.toreal(L(x)) for x in r]) for q in 'XY'] for r in snp.asarray(a).a.tolist()], object)), None, None

    def grid(bin_width=None, window_width=None, num_subdivisions=None):
        w = 'tth' if L(window_width) is tt else 'eta'
        assert num_subdivisions == 3 and L(window_width) is (tt if w == 'tth' else et)
        seen.setdefault(w, []).append(bin_width)
        n = nt if w == 'tth' else ne
        return n, v.reals('g' + w, (n + 1,))

    def cells(edges, p):
        e = [L(x) for x in snp.asarray(edges).a]
        which = 'row' if len(e) == nr + 1 else 'col'
        seen[which] = e
        return conc([app(which, L(x), sort='I') for x in snp.asarray(p).a], int)
    f = v.lift(XU + ':make_reflection_patches', contracts={XU + ':_project_on_detector_plane': proj, GU + ':make_tolerance_grid': grid, GU + ':cellIndices': cells,
                                                           'hexrd.core.transforms.xfcapi:make_rmat_of_expmap': lambda x: ('R', x)})
    nr, nc = 2, 3
    pr, pc = v.reals('pr'), v.reals('pc')
    tt, et = v.reals('tt'), v.reals('et')
    chi = v.reals('chi')
    tilt, trn, st, bv = (v.reals(k, (3,)) for k in ('tilt', 'trn', 'st', 'bv'))
    cfg = {'detector': {'transform': {'tilt': tilt, 'translation': trn}, 'pixels': {'size': [pr, pc], 'rows': nr, 'columns': nc}}, 'oscillation_stage': {'chi': chi, 'translation': st}, 'beam': {'vector': bv}}
    A, px, om = v.reals('A', (2, 2)), v.reals('px', (2, 2)), v.reals('om', (2,))
    rc, tc = v.reals('rc', (3, 3)), v.reals('tc', (3, 1))
    for nt, ne, omega in ((2, 1, None), (1, 2, om), (2, 2, om)):
        def th():
            seen.clear()
            r = list(f(cfg, A, px, omega=omega, tth_tol=tt, eta_tol=et, rmat_c=rc, tvec_c=tc, npdiv=3))
            return r, dict(seen)
        for o in v.run(th):
            r, s = o.value
            v.require('one patch per reflection', len(r) == 2, '')
            gt, ge = v.reals('gtth', (nt + 1,)), v.reals('geta', (ne + 1,))
            for c in s['p']:
                rd, rcc, ch, td, tcc, tss, dist, b = c
                v.require('pose of the panel and sample', rd[0] == 'R' and rcc is rc and ch is chi and tcc is tc and dist is None, '')
                v.prove('pose of the panel and sample', o.pc, and_(*[eq(snp.asarray(x).a[i], y.a[i]) for x, y in ((rd[1], tilt), (td, trn), (tss, st), (b, bv)) for i in range(3)]))
            v.prove('pixel size in degrees', o.pc, and_(*[eq(L(s[k][i]), px.a[i, j] * 180 / PI) for i in (0, 1) for j, k in enumerate(('tth', 'eta'))]))
            v.prove('rows from the top', o.pc, and_(*[eq(x, (half() * nr - k) * pr) for k, x in enumerate(s['row'])]))
            v.prove('columns from the left', o.pc, and_(*[eq(x, (k - half() * nc) * pc) for k, x in enumerate(s['col'])]))
            for i, (ang, xy, conn, area, cen, ij) in enumerate(r):
                w = num(0, 'R') if omega is None else om.a[i]
                vx = lambda a, b: (A.a[i, 0] + gt.a[b] * D2R, A.a[i, 1] + ge.a[a] * D2R)
                for a, b in np.ndindex(ne + 1, nt + 1):
                    t, e = vx(a, b)
                    v.prove('vertices', o.pc, and_(eq(snp.asarray(ang[0]).a[a, b], t), eq(snp.asarray(ang[1]).a[a, b], e)))
                    x = [app(q, t, e, w) for q in 'XY']
                    v.prove('positions of the vertices', o.pc, and_(*[eq(snp.asarray(xy[q]).a[a, b], x[q]) for q in (0, 1)]))
                for a, b in np.ndindex(ne, nt):
                    t0, e0 = vx(a, b)
                    t1, e1 = vx(a + 1, b + 1)
                    c = [app(q, (t0 + t1) / 2, (e0 + e1) / 2, w) for q in 'XY']
                    v.prove('cell centres', o.pc, and_(*[eq(snp.asarray(cen[q]).a[a, b], c[q]) for q in (0, 1)]))
                    v.prove('pixels of the cells', o.pc, and_(eq(snp.asarray(ij[0]).a[a, b], app('row', c[1], sort='I')), eq(snp.asarray(ij[1]).a[a, b], app('col', c[0], sort='I'))))
                    P = [[app(q, *u, w) for q in 'XY'] for u in (vx(a, b), vx(a, b + 1), vx(a + 1, b + 1), vx(a + 1, b))]
                    ar = sum_([P[k][0] * P[(k + 1) % 4][1] - P[(k + 1) % 4][0] * P[k][1] for k in range(4)]) / 2
                    x = snp.asarray(area).a[a, b]
                    v.prove('area of a cell', o.pc, or_(eq(x, ar), eq(x, -ar)))


@check.runtime('rings of a panel', [D], n=40)
def _(t):
    from .D01 import make, panel
    from hexrd.core.material.crystallography import PlaneData
    from .E03 import material
    m, pd0 = material(dmin=.6, keep=(0, 1, 2, 3, 4, 5))
    for i in t.cases():
        rng = t.rng
        p = make_panel(rng, i)
        step = float(rng.choice([10., 7.2, 360 / 169, 360 / 47, 33.]))
        w = float(rng.uniform(.05, 1.5))
        kind = i % 3
        tth = np.sort(rng.uniform(2, 25, 3))
        kw = dict(delta_tth=w, delta_eta=step, full_output=True)
        if kind == 0:
            spec = list(tth)
            rg = np.radians(np.c_[tth - w / 2, tth + w / 2])
            c = np.radians(tth)
        else:
            spec = pd0
            pd = PlaneData(None, pd0)
            pd.tThWidth = np.radians(w)
            if kind == 2:
                kw['merge_hkls'] = True
                rg = np.array(pd.getMergedRanges(True)[1])
                c = rg.mean(1)
            else:
                rg, c = pd.getTThRanges(), pd.getTTh()
        el = None
        if i % 5 == 4:
            el = rng.uniform(-180, 180, 7)
            kw['eta_list'] = list(el)
        ts = rng.normal(size=3) * (i % 2)
        kw['tvec_s'] = ts
        width0 = pd0.tThWidth
        ang, xy, tr_, idx, ee = p.make_powder_rings(spec, **kw)
        t.expect(pd0.tThWidth == width0, 'plane data unchanged')
        n = int(np.floor(360 / step + 1e-6))
        ec = np.radians(el) if el is not None else -np.pi + np.radians(step) * (np.arange(n) + .5)
        if el is None:
            t.expect(len(ee) == n + 1, 'number of sectors', got=len(ee) - 1, want=n, step=step)
        t.close(tr_, rg, 'ranges', 1e-9, 1e-12)
        t.expect(len(ang) == len(c), 'one entry per ring')
        for k in range(len(c)):
            keep = []
            hd = np.radians(step) / 2
            for e in ec:
                q = np.array([[rg[k][0], e - hd], [rg[k][0], e + hd], [rg[k][1], e + hd], [rg[k][1], e - hd], [c[k], e]])
                z = p.angles_to_cart(q, rmat_s=np.eye(3), tvec_s=ts, apply_distortion=True)
                keep.append(bool(np.all(p.clip_to_panel(z)[1])))
            if np.array_equal(np.asarray(idx[k], bool), keep):
                t.close(ang[k], np.c_[np.full(sum(keep), c[k]), ec[keep]], 'sector centres', 1e-9, 1e-9)
                t.expect(np.asarray(xy[k]).shape == (sum(keep), 2), 'shape of positions', got=np.asarray(xy[k]).shape)
                if sum(keep):
                    a, _ = p.cart_to_angles(xy[k], tvec_s=ts, apply_distortion=True)
                    t.close(a[:, 0], ang[k][:, 0], 'positions have the two-theta of the ring', 1e-6, 1e-7)
                    t.close(np.exp(1j * a[:, 1]).view(float), np.exp(1j * ang[k][:, 1]).view(float), 'positions have the azimuth of the sector', 1e-6, 1e-6)
            else:
                t.expect(len(keep) == len(idx[k]) and sum(np.asarray(idx[k], bool) != keep) <= 1, 'sectors on the panel', got=idx[k], want=keep)


def make_panel(rng, i):
    from hexrd.core.instrument.planar_detector import PlanarDetector
    kw = dict(rows=int(rng.integers(60, 140)), cols=int(rng.integers(60, 140)), pixel_size=(2., 1.5), tvec=np.array([rng.normal() * 30, rng.normal() * 30, -400.]), tilt=rng.normal(size=3) * .1)
    if i % 4 == 3:
        kw['panel_buffer'] = [5., 3.]
    return PlanarDetector(**kw)


@check.runtime('line positions of an instrument', [HM + ':HEDMInstrument.extract_line_positions', XU + ':make_reflection_patches'], n=5, thorough=20)
def _(t):
    from hexrd.core.instrument import hedm_instrument as hi
    from hexrd.core.material.crystallography import PlaneData
    from .E03 import material, instrument
    m, pd0 = material(dmin=.6, keep=(0, 1, 2, 3, 4, 5))
    for i in t.cases():
        rng = t.rng
        inst = instrument(rng, 1 + i % 2, 40)
        for p in inst.detectors.values():
            p.pixel_size_row = p.pixel_size_col = 2.
        images = {k: rng.random(p.shape) + np.arange(p.cols) * .05 for k, p in inst.detectors.items()}
        w, ew, nd = float(rng.choice([.2, .5, 1.5])), 8., int(rng.integers(1, 3))
        spec = pd0 if i % 2 else [6., 8.5]
        if i % 2:
            pd = PlaneData(None, pd0)
            pd.tThWidth = np.radians(w)
            groups = pd.getMergedRanges(True)
            rg = np.array(groups[1])
        else:
            rg = np.radians([[x - w / 2, x + w / 2] for x in spec])
        mode = [(True, False), (False, True), (False, False)][i % 3]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out = inst.extract_line_positions(spec, images, tth_tol=w, eta_tol=ew, npdiv=nd, collapse_eta=mode[0], collapse_tth=mode[1])
        for k, p in inst.detectors.items():
            ang, xy, _ = p.make_powder_rings(spec, merge_hkls=True, delta_tth=w, delta_eta=ew)
            t.expect(len(out[k]) == len(rg), 'one entry per merged ring', got=len(out[k]), want=len(rg))
            for r, (a, x) in enumerate(zip(ang, xy)):
                if len(out[k]) != len(rg):
                    break
                res = out[k][r]
                if not len(a):
                    t.expect(len(res) == 0, 'ring off the panel')
                    continue
                px = np.degrees(p.angularPixelSize(x))
                tw = np.degrees(rg[r][1] - rg[r][0])
                want = []
                for s in range(len(a)):
                    nt, ne = (int(nd * np.ceil(q / min(b, q))) for q, b in ((tw, px[s, 0]), (ew, px[s, 1])))
                    et, ee = (np.radians(np.linspace(-q / 2, q / 2, n + 1)) for q, n in ((tw, nt), (ew, ne)))
                    tt, eg = np.meshgrid(a[s, 0] + et, a[s, 1] + ee)
                    vxy = p.angles_to_cart(np.c_[tt.ravel(), eg.ravel()], tvec_s=inst.tvec, apply_distortion=True).reshape(ne + 1, nt + 1, 2)
                    tc, ec = np.meshgrid(a[s, 0] + (et[1:] + et[:-1]) / 2, a[s, 1] + (ee[1:] + ee[:-1]) / 2)
                    cxy = p.angles_to_cart(np.c_[tc.ravel(), ec.ravel()], tvec_s=inst.tvec, apply_distortion=True)
                    if not np.all(p.clip_to_panel(cxy)[1]):
                        continue
                    d1, d2 = vxy[1:, 1:] - vxy[:-1, :-1], vxy[1:, :-1] - vxy[:-1, 1:]
                    area = np.abs(d1[..., 0] * d2[..., 1] - d1[..., 1] * d2[..., 0]) / 2
                    I = p.interpolate_bilinear(cxy, images[k]).reshape(ne, nt) * area / p.pixel_area
                    want.append((s, tc[0], I))
                flat = lambda I: 1 - I.min() / I.max() < .01
                if any(abs(1 - I.min() / I.max() - .01) < 1e-6 for *_, I in want):
                    continue
                if mode[1]:
                    g = np.asarray(res)
                    t.expect(g.shape == (len(a), 1), 'one value per sector', got=g.shape)
                    for s, _, I in want:
                        t.close(g[s, 0], 0 if flat(I) else I.mean(), 'mean intensity of a sector', 1e-6, 1e-9)
                    continue
                t.expect(len(res) == len(want), 'sectors on the panel', got=len(res), want=len(want))
                for (s, tc, I), (q, data, *_) in zip(want, res):
                    t.expect(len(data) == (not flat(I)), 'a flat sector has no line', got=len(data))
                    if flat(I) or not len(data):
                        continue
                    if mode[0]:
                        t.close(q[0], tc, 'bins of a line', 1e-9, 1e-9)
                        t.close(q[1], a[s, 1], 'azimuth of a line', 0, 1e-9)
                        t.close(data[0], I.mean(0), 'line', 1e-6, 1e-9)
                    else:
                        t.close(data[0], I, 'intensity of the cells', 1e-6, 1e-9)
