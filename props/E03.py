"""eta-omega maps and the orientations found from them"""
from .common import *
import itertools
import os
import tempfile
import types
import warnings
import numpy as np

GM = 'hexrd.hedm.instrument.generate_eta_omega_maps'
GE = GM + ':GenerateEtaOmeMaps'
HM = 'hexrd.core.instrument.hedm_instrument'
FO = 'hexrd.hedm.findorientations'
XU = 'hexrd.hedm.xrdutil.utils:EtaOmeMaps'
check = Check('E03', assumptions=[
    'frames of increasing omega, wedges in order, non-overlapping, within one turn and of one step, as the class documents',
    'numpy.histogram: bins closed below, the last one closed above; peak finding (scipy.ndimage, skimage) and DBSCAN are dependencies'])
D2R = PI / 180


def conc(a, dt=float):
    return snp.ndarray.conc(np.array(a, object), np.dtype(dt))


def period_map(a, rng):
    """contract of mapAngle: the value a period away that lies in the range, kept on its end"""
    lo = L(snp.asarray(rng).a.ravel()[0])
    a = snp.atleast_1d(snp.asarray(a))
    out = []
    for e in a.a.ravel():
        e = L(e)
        out.append(app('map', tm.toreal(e), tm.toreal(lo)))
    return conc(np.array(out, object).reshape(a.a.shape))


def nan_panel(v, tag, shape):
    val = v.reals(tag, shape)
    m, nan = np.empty(shape, object), np.empty(shape, object)
    for ij in np.ndindex(*shape):
        nan[ij] = sym(f'{tag}_nan_' + '_'.join(map(str, ij)), 'B')
        m[ij] = ite(nan[ij], tm.NAN, val.a[ij])
    return conc(m), val.a, nan


class Wedges:
    def __init__(self, w):
        self.wedges = w
        self.nwedges = len(w)


class Ims:
    def __init__(self, omegas, wedges, frames=None):
        self.metadata = {'omega': omegas}
        self.omegawedges = Wedges(wedges)

    def omega_to_frame(self, o):
        o = float(L(o).args[0]) if isinstance(L(o), T) else float(o)
        f = 0
        for i, w in enumerate(self.omegawedges.wedges):
            x = w['ostart'] + (o - w['ostart']) % 360
            if x < w['ostop']:
                return f + int((x - w['ostart']) * w['nsteps'] / (w['ostop'] - w['ostart'])), i
            f += w['nsteps']
        return -1, -1


class MapPD:
    hkls = 'hkls of the plane data'

    def getHKLID(self, h, master=False):
        assert h is self.hkls and master
        return [2, 3]


@check.obligations('panels are added and wedges placed', [GE + '.__init__'])
def _(v):
    got = {}

    class Inst:
        def extract_polar_maps(self, pd, imsd, active_hkls=None, threshold=None, tth_tol=None, eta_tol=None):
            got['args'] = (pd, imsd, active_hkls, threshold, tth_tol, eta_tol)
            return got['maps'], got['eta']

    def mapangle(a, rng=None, units='radians'):
        if units == 'degrees':
            lo, hi = (float(L(x).args[0]) for x in snp.asarray(rng).a.ravel())
            x = float(L(a).args[0]) if isinstance(L(a), T) else float(a)
            r = (x - lo) % 360 + lo
            return conc([L(hi if r == lo and x > lo else r)])
        return period_map(a, rng)
    def unique(a, tol=None):
        from hexrd.core import matrixutil
        return snp.asarray(matrixutil.uniqueVectors(np.array([[float(L(x).args[0]) for x in r] for r in rows(a)]), tol=float(tol)))
    G = v.lift(GE, contracts={'hexrd.core.rotations:mapAngle': mapangle, 'hexrd.core.matrixutil:uniqueVectors': unique}, new=True)
    step = v.reals('step')
    e0 = v.reals('e0')
    thr = v.reals('thr')
    cases = [('one wedge', 2, 3, None), ('two wedges', 1, 4, [(0., 20., 2), (40., 60., 2)]), ('wedges over the end of the turn', 2, 3, [(-30., -10., 2), (300., 310., 1)])]
    for name, npan, nf, wedges in cases:
        shape = (2, nf, 2)
        pans = [nan_panel(v, f'p{k}', shape) for k in range(npan)]
        got['maps'] = {f'd{k}': p[0] for k, p in enumerate(pans)}
        eta = conc([e0, e0 + step * D2R, e0 + 2 * step * D2R])
        got['eta'] = eta
        if wedges is None:
            om = v.reals('om', (nf, 2))
            ims = Ims(om, [dict(ostart=om.a[0, 0], ostop=om.a[-1, 1], nsteps=nf)])
            full = [(a, b) for a, b in om.a]
            place = list(range(nf))
        else:
            ws = [dict(ostart=a, ostop=b, nsteps=n) for a, b, n in wedges]
            ims = Ims(np.zeros((nf, 2)), ws)
            d = (wedges[0][1] - wedges[0][0]) / wedges[0][2]
            oo = np.vstack([np.c_[np.linspace(a, b, n + 1)[:-1], np.linspace(a, b, n + 1)[1:]] for a, b, n in wedges])
            ims.metadata['omega'] = snp.asarray(oo)
            lo = oo[0, 0]
            hi = (wedges[-1][1] - lo) % 360 + lo
            ed = np.arange(lo, hi + d / 2, d)
            full = list(zip(ed[:-1], ed[1:]))
            place = [int(round(((a - lo) % 360) / d)) for a in oo[:, 0]]
        pd = MapPD()
        for active in (None, [5, 1]):
            def th():
                got.pop('args', None)
                o = G(got['imsd'], got['inst'], pd, active, step, thr, (0, 360))
                return o.dataStore, o.omegas, o.omeEdges, o.etas, o.etaEdges, o.iHKLList, o.planeData, got['args']
            got['imsd'], got['inst'] = {'a': ims}, Inst()
            for o in v.run(th):
                ds, omegas, oe, etas, ee, ids, pd2, args = o.value
                v.require(f'{name}: asked for', args[0] is pd and args[1] is got['imsd'] and args[2] is active and args[3] is thr and args[4] is None and args[5] is step and pd2 is pd, '')
                v.require(f'{name}: ids', [int(L(x).args[0]) for x in snp.asarray(ids).a] == (active or [2, 3]), str(ids))
                v.require(f'{name}: one map per ring', len(ds) == 2 and all(x.shape == (len(full), 2) for x in ds), '')
                for r, x in enumerate(ds):
                    for i in range(len(full)):
                        for j in range(2):
                            e = L(snp.asarray(x).a[i, j])
                            if i not in place:
                                v.prove(f'{name}: outside the wedges', o.pc, tm.isnan(e))
                                continue
                            f = place.index(i)
                            nn = [p[2][r, f, j] for p in pans]
                            v.prove(f'{name}: missing', o.pc, eq(tm.isnan(e), and_(*nn)))
                            s = sum_([ite(n, num(0, 'R'), p[1][r, f, j]) for n, p in zip(nn, pans)])
                            v.prove(f'{name}: sum of the panels', o.pc + [not_(and_(*nn))], eq(e, s))
                lo = L(full[0][0]) * D2R if not isinstance(full[0][0], float) else L(full[0][0]) * D2R
                w = list(snp.asarray(omegas).a)
                ed = list(snp.asarray(oe).a)
                v.require(f'{name}: bins', len(w) == len(full) and len(ed) == len(full) + 1, '')
                m = lambda x: app('map', tm.toreal(x), tm.toreal(lo))
                for k, (a, b) in enumerate(full):
                    a, b = L(a), L(b)
                    v.prove(f'{name}: centre of a bin', o.pc, eq(w[k], m((a + b) / 2 * D2R)))
                    v.prove(f'{name}: edge of a bin', o.pc, eq(ed[k], m(a * D2R)))
                last = m(L(full[-1][1]) * D2R)
                close = le(tm.absv(L(ed[0]) - last), L(float(np.sqrt(np.finfo(float).eps))))
                v.prove(f'{name}: last edge', o.pc, eq(ed[-1], ite(close, L(ed[-2]) + (L(full[0][1]) - L(full[0][0])) * D2R, last)))
                for k in range(2):
                    v.prove(f'{name}: azimuth of a bin', o.pc, eq(snp.asarray(etas).a[k], eta.a[k] + step * D2R / 2))
                v.require(f'{name}: azimuth edges', snp.asarray(ee) is eta or all(p is q for p, q in zip(snp.asarray(ee).a, eta.a)), '')
        # frames of different steps
    ws = [dict(ostart=0., ostop=20., nsteps=2), dict(ostart=40., ostop=60., nsteps=3)]
    ims = Ims(snp.asarray(np.zeros((5, 2))), ws)
    for o in v.run(lambda: G({'a': ims}, Inst(), MapPD(), None), allow_exc=True):
        v.require('different steps are refused', isinstance(o.exc, AssertionError), repr(o.exc))


def hist(x, bins=None, weights=None):
    """numpy.histogram by its definition"""
    x, bins = snp.asarray(x), snp.asarray(bins)
    xs = [L(e) for e in x.a.ravel()]
    ws = [num(1, 'R')] * len(xs) if weights is None else [tm.toreal(L(e)) for e in snp.asarray(weights).a.ravel()]
    b = [L(e) for e in bins.a.ravel()]
    out = []
    for k in range(len(b) - 1):
        s = num(0, 'R')
        for e, w in zip(xs, ws):
            up = le(e, b[k + 1]) if k == len(b) - 2 else lt(e, b[k + 1])
            s = s + ite(and_(le(b[k], e), up), w, num(0, 'R'))
        out.append(s)
    return conc(out), bins


@check.obligations('intensity of a bin', [HM + ':_generate_ring_params', HM + ':_run_histograms'])
def _(v):
    ov = {(HM, 'histogram'): hist}
    gen = v.lift(HM + ':_generate_ring_params', overrides=ov)
    run = v.lift(HM + ':_run_histograms', overrides=ov)
    t0, t1, d = v.reals('t0'), v.reals('t1'), v.reals('d')
    thr = v.reals('thr')
    eta = v.reals('e', (3,))
    e = list(eta.a)
    for shape in ((1, 2), (2, 1)):
        tt, et = v.reals('tth', shape), v.reals('eta', shape)
        img = v.reals('img', (2,) + shape)
        hyps = [lt(e[0], e[1]), lt(e[1], e[2])]
        px = list(np.ndindex(*shape))
        inr = {p: and_(le(t0, tt.a[p]), le(tt.a[p], t1)) for p in px}
        for threshold in (None, thr):
            def th():
                p = gen(conc([t0, t1]), tt, et, eta, d)
                maps = snp.full((1, 2, 2), snp.nan)
                ims = [img[0], img[1]]
                run((0, 2), ims, conc([[t0, t1]]), maps, [p], threshold)
                return maps, [i.a.copy() for i in ims]
            for o in v.run(th, hyps, max_paths=4000):
                m, after = o.value
                for f in range(2):
                    v.require('images unchanged', all(a is b for a, b in zip(after[f].ravel(), img.a[f].ravel())), '')
                    for k in range(2):
                        inb = {p: and_(inr[p], le(e[k], et.a[p]), (le if k == 1 else lt)(et.a[p], e[k + 1])) for p in px}
                        x = L(snp.asarray(m).a[0, f, k])
                        v.prove('missing where there is no pixel', hyps + o.pc, eq(tm.isnan(x), not_(or_(*inb.values()))))
                        w = lambda p: img.a[f][p] if threshold is None else ite(lt(img.a[f][p], thr), num(0, 'R'), img.a[f][p])
                        s = sum_([ite(inb[p], w(p), num(0, 'R')) for p in px])
                        v.prove('sum of the pixels of the bin', hyps + o.pc + [or_(*inb.values())], eq(x, s))
    for n, k in itertools.product(range(0, 12), range(1, 7)):
        from hexrd.core.utils import concurrent
        f = v.lift('hexrd.core.utils.concurrent:distribute_tasks')
        for o in v.run(lambda: f(n, k)):
            r = [tuple(int(L(x).args[0]) if isinstance(x, T) else int(x) for x in q) for q in o.value]
            v.require('every frame once', [i for a, b in r for i in range(a, b)] == list(range(n)) and len(r) <= k, str(r))


@check.obligations('rings and frames of each panel', [HM + ':HEDMInstrument.extract_polar_maps'])
def _(v):
    log = []

    class Series(list):
        pass
    tr = v.reals('tr', (3, 2))
    e0, w = v.reals('e0'), v.reals('w')
    eta = conc([e0, e0 + w, e0 + 2 * w])

    class PD:
        hkls = 'all'

        def __init__(self, width):
            self.tThWidth = width

        def getHKLID(self, h, master=False):
            assert h == 'all' and master
            return [0, 2, 5]

    class Panel:
        def __init__(self, k):
            self.k, self.roi, self.group = k, ('roi', k), ('group', k)

        def make_powder_rings(self, pd, merge_hkls=False, delta_eta=None, full_output=False):
            log.append(('rings', self.k, pd.tThWidth, merge_hkls, delta_eta, full_output))
            return None, None, tr, None, eta

        def pixel_angles(self):
            return ('tth', self.k), ('eta', self.k)

    def parse(d, key, roi=None, group=None):
        assert roi == ('roi', key) and group == ('group', key)
        return d[key]

    def params(**kw):
        log.append(('params', kw))
        return ('params', len([1 for x in log if x[0] == 'params']))

    def hists(rows, ims=None, tth_ranges=None, ring_maps=None, ring_params=None, threshold=None):
        log.append(('hist', rows, ims, tth_ranges, ring_maps, ring_params, threshold))
    H = v.lift(HM + ':HEDMInstrument.extract_polar_maps', contracts={HM + ':_parse_imgser_dict': parse, HM + ':_generate_ring_params': params, HM + ':_run_histograms': hists},
               overrides={(HM, 'OmegaImageSeries'): Series})
    width, tol, step, thr = v.reals('width'), v.reals('tol'), v.reals('step'), v.reals('thr')

    class Self:
        max_workers = 1
    for active in (None, [5, 0], np.array([2]), [5, 2, 0]):
        for tt in (None, tol):
            imsd = {}
            for k, n in (('a', 3), ('b', 3)):
                s = Series(range(n))
                s.metadata = {'omega': np.zeros((n, 2))}
                imsd[k] = s
            self = Self()
            self.detectors = {k: Panel(k) for k in ('a', 'b')}
            want = [0, 1, 2] if active is None else [[0, 2, 5].index(int(x)) for x in active]

            def th():
                log.clear()
                pd = PD(width)
                r = H(self, pd, imsd, active, thr, tt, step)
                return r, list(log)
            for o in v.run(th):
                (maps, ee), lg = o.value
                rings = [x for x in lg if x[0] == 'rings']
                v.require('rings made once', len(rings) == 1 and rings[0][3] is False and rings[0][4] is step and rings[0][5] is True, str(rings))
                v.prove('width of the rings', o.pc, eq(rings[0][2], width if tt is None else tol * D2R))
                v.require('panels', list(maps) == ['a', 'b'] and ee is eta, '')
                ps = [x[1] for x in lg if x[0] == 'params']
                hs = [x for x in lg if x[0] == 'hist']
                v.require('rings per panel', len(ps) == 2 * len(want), '')
                for q, kw in enumerate(ps):
                    k = 'ab'[q // len(want)]
                    v.require('pixel angles of the panel', kw['ptth'] == ('tth', k) and kw['peta'] == ('eta', k) and kw['eta_edges'] is eta, '')
                    got = snp.asarray(kw['tthr'])
                    v.prove('range of the ring', o.pc, and_(*[eq(got.a[c], tr.a[want[q % len(want)], c]) for c in (0, 1)]))
                for k in 'ab':
                    mine = [h for h in hs if h[2] is imsd[k]]
                    v.require('each frame once', sorted(i for h in mine for i in range(int(h[1][0]), int(h[1][1]))) == [0, 1, 2], '')
                    for h in mine:
                        v.require('task', h[4] is maps[k] and h[6] is thr and list(h[5]) == [('params', len(want) * 'ab'.index(k) + 1 + r) for r in range(len(want))], str(h))
                        v.require('shape', snp.asarray(maps[k]).shape == (len(want), 3, 2), '')
                        v.prove('missing at first', o.pc, and_(*[tm.isnan(L(x)) for x in snp.asarray(maps[k]).a.ravel()]))
    for active in ([4], [0, 7], [1]):
        for o in v.run(lambda: H(self, PD(width), imsd, active, thr, None, step), allow_exc=True):
            v.require('hkls that are not active are refused', isinstance(o.exc, RuntimeError), repr(o.exc))
    for o in v.run(lambda: H(self, PD(None), imsd, None, thr, None, step), allow_exc=True):
        v.require('ring width needed', isinstance(o.exc, RuntimeError), repr(o.exc))
    for o in v.run(lambda: H(self, PD(width), imsd, 3, thr, None, step), allow_exc=True):
        v.require('list needed', isinstance(o.exc, TypeError), repr(o.exc))


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


@check.obligations('spots to fibers', [FO + ':generate_orientation_fibers', FO + ':discretefiber_reduced'])
def _(v):
    log = {}
    maps = [v.reals(f'map{k}', (2, 2)) for k in range(3)]
    orig = [m.a.copy() for m in maps]
    ncom = {0: 2, 1: 0, 2: 1}
    coms = {k: v.reals(f'com{k}', (n, 2)) for k, n in ncom.items()}
    which = []

    def clean(m):
        which.append(m)

    def peaks(img, method, kw):
        k = [i for i in range(3) if all(a is b for a, b in zip(snp.asarray(img).a.ravel(), orig[i].ravel()))]
        assert len(k) == 1 and which[-1] is img and img is not maps[k[0]] and method == 'label' and kw == {'k': 1}
        return ncom[k[0]], coms[k[0]]

    def reduced(p):
        log['p'].append(p)
        return conc(np.array([[app(f'q{i}', *[tm.toreal(L(x)) for x in snp.asarray(p).a])] for i in range(4)], object))

    def init(p):
        log['init'] = dict(p)

    class Clock:
        @staticmethod
        def default_timer():
            return 0.
    f = v.lift(FO + ':generate_orientation_fibers',
               contracts={FO + ':clean_map': clean, 'hexrd.core.imageutil:find_peaks_2d': peaks, FO + ':discretefiber_reduced': reduced, FO + ':discretefiber_init': init, FO + ':discretefiber_cleanup': lambda: None},
               overrides={(FO, 'timeit'): Clock})
    w, e = v.reals('w', (3,)), v.reals('e', (3,))
    wc, ec = v.reals('wc', (2,)), v.reals('ec', (2,))
    tth = v.reals('tth', (5,))
    B, chi = v.reals('B', (3, 3)), v.reals('chi')
    H = {0: (1, 1, 1), 2: (2, 2, 0), 3: (3, 1, 1), 6: (2, 2, 2), 7: (4, 0, 0)}

    class PD:
        latVecOps = {'B': B}
        laueGroup = 'oh'

        def getTTh(self):
            return tth

        def getHKLs(self, *ids, asStr=False):
            return snp.asarray(np.array([H[int(i)] for i in ids]))

        def getHKLID(self, h, master=False):
            assert not master
            h = snp.asarray(h)
            cols = [tuple(int(float(L(x).args[0])) for x in c) for c in h.a.T]
            return [sorted(H).index(next(k for k in H if H[k] == c)) for c in cols]
    ids = np.array([6, 0, 3])
    for seeds in ([0], [1, 0], [2, 0], [0, 1, 2]):
        eo = NS(planeData=PD(), iHKLList=ids, omegas=wc, etas=ec, omeEdges=w, etaEdges=e, dataStore=maps)
        cfg = NS(multiprocessing=1, instrument=NS(hedm=NS(chi=chi)), find_orientations=NS(seed_search=NS(hkl_seeds=seeds, fiber_ndiv=7, method={'label': {'k': 1}})))
        want = [(ids[s], coms[s].a[i]) for s in seeds for i in range(ncom[s])]

        def th():
            log['p'] = []
            which.clear()
            r = f(cfg, eo)
            return r, list(log['p']), dict(log['init'])
        for o in v.run(th):
            r, ps, ini = o.value
            v.require(f'{seeds}: one fiber per spot', len(ps) == len(want) and snp.asarray(r).shape == (4, len(want)), '')
            v.require(f'{seeds}: parameters', ini['bMat'] is B and ini['chi'] is chi and ini['csym'] == 'oh' and ini['fiber_ndiv'] == 7, '')
            for k, (p, (i, c)) in enumerate(zip(ps, want)):
                p = [L(x) for x in snp.asarray(p).a.ravel()]
                t = tth.a[sorted(H).index(int(i))]
                g = [num(x, 'R') for x in H[int(i)]] + [t, e.a[0] + (c[1] + half()) * (ec.a[1] - ec.a[0]), w.a[0] + (c[0] + half()) * (wc.a[1] - wc.a[0])]
                v.require('numbers of a spot', len(p) == 6, '')
                v.prove(f'{seeds}: hkl and angles of a spot', o.pc, and_(*[eq(a, b) for a, b in zip(p, g)]))
                v.prove(f'{seeds}: its orientations', o.pc, and_(*[eq(snp.asarray(r).a[j, k], app(f'q{j}', *g)) for j in range(4)]))
            v.require(f'{seeds}: maps unchanged', all(a is b for m, q in zip(maps, orig) for a, b in zip(m.a.ravel(), q.ravel())), '')
    # one spot
    seen = {}
    G = v.reals('G', (1, 3))

    def gvec(a, chi=None, **k):
        seen['a'], seen['chi'], seen['k'] = a, chi, k
        return G

    def fiber(c, s, B=None, ndiv=None, invert=None, csym=None, **k):
        seen['f'] = (c, s, B, ndiv, invert, csym, k)
        return ['fib']
    P = dict(bMat=B, chi=chi, csym='oh', fiber_ndiv=9)
    g = v.lift(FO + ':discretefiber_reduced', contracts={'hexrd.core.transforms.xfcapi:angles_to_gvec': gvec, 'hexrd.core.rotations:discreteFiber': fiber, 'hexrd.core.matrixutil:uniqueVectors': lambda x, **k: ('unique', x)},
               overrides={(FO, 'paramMP'): P})
    ini = v.lift(FO + ':discretefiber_init')
    p = v.reals('p', (6,))
    for o in v.run(lambda: (ini(P), g(p), dict(seen))[1:]):
        r, s = o.value
        c, sv, b, n, inv, cs, k = s['f']
        v.require('fiber', r == ('unique', 'fib') and b is B and n == 9 and cs == 'oh' and not k and not s['k'], '')
        v.prove('angles', o.pc, and_(eq(L(s['chi']), chi), *[eq(snp.asarray(s['a']).a[0, i], p.a[3 + i]) for i in range(3)]))
        v.prove('crystal direction', o.pc, and_(*[eq(snp.asarray(c).a[i, 0], p.a[i]) for i in range(3)]))
        v.prove('sample direction', o.pc, and_(*[eq(snp.asarray(sv).a[i, 0], G.a[0, i]) for i in range(3)]))


@check.obligations('omega period and ranges of the images', [FO + ':_process_omegas'])
def _(v):
    f = v.lift(FO + ':_process_omegas')
    a, b, c, d = (v.reals(k) for k in 'abcd')
    om = v.reals('om', (3, 2))
    s = NS(omega=om, omegawedges=Wedges([dict(ostart=a, ostop=b, nsteps=2), dict(ostart=c, ostop=d, nsteps=1)]))
    for o in v.run(lambda: f({'x': s, 'y': None})):
        p, r = o.value
        p = snp.asarray(p).a
        v.prove('period', o.pc, and_(eq(p[0], om.a[0, 0]), eq(p[1], om.a[0, 0] + 360)))
        v.require('ranges', [list(q) for q in r] == [[a, b], [c, d]], '')


# ---------------------------------------------------------------- whole objects
def material(dmin=0.9, kev=60., keep=(0, 1, 3)):
    from hexrd.core.material.material import Material
    from hexrd.core.valunits import valWUnit
    m = Material(kev=valWUnit('e', 'energy', kev, 'keV'), dmin=valWUnit('d', 'length', dmin, 'angstrom'))
    pd = m.planeData
    ex = np.ones(len(pd.exclusions), bool)
    ex[list(keep)] = False
    pd.exclusions = ex
    pd.tThWidth = np.radians(.5)
    return m, pd


def series(images, omegas, wedges):
    from hexrd.core import imageseries
    from hexrd.core.imageseries.omega import OmegaImageSeries, OmegaWedges
    w = OmegaWedges(len(images))
    for x in wedges:
        w.addwedge(*x)
    ims = imageseries.open(None, 'array', data=images, meta={'omega': w.omegas})
    return OmegaImageSeries(ims)


def instrument(rng, n=2, pix=14):
    from hexrd.core.instrument.hedm_instrument import HEDMInstrument
    d = {}
    for k in range(n):
        d[f'p{k}'] = {'pixels': {'rows': pix + k, 'columns': pix + 2, 'size': [5., 5.]}, 'saturation_level': 1000.,
                      'transform': {'tilt': [float(x) for x in rng.normal(size=3) * .05], 'translation': [float((k - .5 * (n - 1)) * 75. + rng.normal()), float(rng.normal()), -300.]}}
    cfg = {'beam': {'energy': 60., 'vector': {'azimuth': 90., 'polar_angle': 90.}}, 'detectors': d,
           'oscillation_stage': {'chi': 0., 'translation': [0., 0., 0.]}, 'id': 'i'}
    return HEDMInstrument(cfg)


@check.runtime('maps of a real instrument', [GE + '.__init__', HM + ':HEDMInstrument.extract_polar_maps', XU + '.save_eta_ome_maps'], n=8)
def _(t):
    from hexrd.hedm.instrument.generate_eta_omega_maps import GenerateEtaOmeMaps
    from hexrd.hedm import xrdutil
    for i in t.cases():
        rng = t.rng
        inst = instrument(rng, int(rng.integers(1, 4)))
        inst.max_workers = int(rng.integers(1, 4))
        m, pd = material()
        wedges = [[(0, 30, 6)], [(-20, 0, 4), (20, 30, 2)], [(0, 360, 8)], [(100, 190, 3), (220, 280, 2), (-20, 10, 1)]][i % 4]
        nf = sum(w[2] for w in wedges)
        imgs = {k: rng.poisson(50, (nf,) + p.shape).astype([float, np.uint16, np.int32][i % 3]) for k, p in inst.detectors.items()}
        imsd = {k: series(x, None, wedges) for k, x in imgs.items()}
        step = float(rng.choice([1., 2.5, 7.2, 360 / 591, 360 / 47]))
        thr = [None, 45][i % 2]
        active = [None, [3, 0], [0, 1, 3], np.array([1])][(i // 2) % 4]
        eo = GenerateEtaOmeMaps(imsd, inst, pd, active_hkls=active, eta_step=step, threshold=thr)
        ids = [0, 1, 3] if active is None else [int(x) for x in active]
        t.expect(list(eo.iHKLList) == ids, 'hkls of the maps')
        ne = int(round(360 / step))
        t.expect(len(eo.etaEdges) == ne + 1, 'azimuth bins cover the circle', got=len(eo.etaEdges), want=ne + 1, step=step)
        t.close(eo.etaEdges, np.linspace(-np.pi, np.pi, ne + 1), 'azimuth edges', 0, 1e-9)
        t.close(eo.etas, .5 * (eo.etaEdges[1:] + eo.etaEdges[:-1]), 'azimuth centres', 0, 1e-9)
        dw = (wedges[0][1] - wedges[0][0]) / wedges[0][2]
        frames = np.vstack([np.c_[np.linspace(a, b, n + 1)[:-1], np.linspace(a, b, n + 1)[1:]] for a, b, n in wedges])
        lo = frames[0, 0]
        hi = (wedges[-1][1] - lo - 1e-9) % 360 + lo + 1e-9
        edges = np.linspace(lo, hi, int(round((hi - lo) / dw)) + 1)
        t.close(eo.omeEdges, np.radians(edges), 'omega edges', 0, 1e-9)
        t.close(eo.omegas, np.radians(.5 * (edges[1:] + edges[:-1])), 'omega centres', 0, 1e-9)
        tth = pd.getTTh()
        for r, hid in enumerate(ids):
            c = tth[[0, 1, 3].index(hid)]
            want = np.full((len(edges) - 1, ne), np.nan)
            risky = np.zeros(ne, bool)
            for k, p in inst.detectors.items():
                pt, pe = p.pixel_angles()
                e = (pe + np.pi) % (2 * np.pi) / (2 * np.pi) * ne
                b = np.minimum(np.floor(e).astype(int), ne - 1)
                inr = np.abs(pt - c) <= np.radians(.25)
                near = (np.abs(np.abs(pt - c) - np.radians(.25)) < 1e-9) | (inr & (np.abs(e - np.round(e)) < 1e-7))
                risky[b[near]] = True
                risky[(b[near] - 1) % ne] = True
                for f in range(nf):
                    row = int(round(((frames[f, 0] - lo) % 360) / dw))
                    im = imgs[k][f].astype(float)
                    im = np.where(im < thr, 0., im) if thr is not None else im
                    h = np.bincount(b[inr], weights=im[inr], minlength=ne)
                    cnt = np.bincount(b[inr], minlength=ne)
                    want[row] = np.where(cnt > 0, np.where(np.isnan(want[row]), 0, want[row]) + h, want[row])
            got = np.asarray(eo.dataStore[r])
            t.expect(got.shape == want.shape, 'shape', got=got.shape, want=want.shape)
            t.expect(bool(np.all((np.isnan(got) == np.isnan(want))[:, ~risky])), 'bins without pixels', hkl=hid)
            t.expect(bool(np.allclose(got[:, ~risky], want[:, ~risky], equal_nan=True)), 'intensity of every bin', hkl=hid)
        with tempfile.TemporaryDirectory() as td:
            fn = os.path.join(td, 'm.npz')
            eo.save(fn)
            b = xrdutil.EtaOmeMaps(fn)
            for k in ('etaEdges', 'omeEdges', 'etas', 'omegas', 'iHKLList'):
                t.expect(np.array_equal(getattr(b, k), getattr(eo, k)), 'saved and loaded: ' + k)
            t.expect(np.array_equal(np.stack(b.dataStore), np.stack(eo.dataStore), equal_nan=True), 'saved and loaded maps')
            t.close(b.planeData.getTTh(), pd.getTTh(), 'saved and loaded rings', 1e-12, 0)
            t.expect(np.array_equal(b.planeData.getHKLs(*ids), pd.getHKLs(*ids)) and np.array_equal(b.planeData.exclusions, pd.exclusions), 'saved and loaded hkls')
            t.close(b.planeData.latVecOps['B'], pd.latVecOps['B'], 'saved and loaded lattice', 1e-12, 1e-14)
            t.expect(b.planeData.laueGroup == pd.laueGroup, 'saved and loaded symmetry')


@check.runtime('cleaning and filtering of maps', [FO + ':clean_map', FO + ':_filter_eta_ome_maps', FO + ':filter_maps_if_requested', FO + ':load_eta_ome_maps'], n=20)
def _(t):
    from hexrd.hedm import findorientations as fo
    from scipy import ndimage
    for i in t.cases():
        rng = t.rng
        m = rng.normal(size=(9, 8)) * 10
        m[rng.random(m.shape) < .2] = np.nan
        c = m.copy()
        fo.clean_map(c)
        med = np.nanmedian(m)
        t.close(c, np.where(m > med, m - med, 0), 'cleaned map: above the median, less the median', 1e-12, 1e-12)
        for flag in (False, None, True, 1.7, 3):
            a = [rng.normal(size=(9, 8)) for _ in range(2)]
            eo = NS(dataStore=[x.copy() for x in a])
            cfg = NS(find_orientations=NS(orientation_maps=NS(filter_maps=flag, file='/nonexistent/maps.npz')))
            gen = fo.generate_eta_ome_maps
            for how in ('direct', 'clean', 'missing file'):
                eo = NS(dataStore=[x.copy() for x in a])
                if how == 'direct':
                    fo.filter_maps_if_requested(eo, cfg)
                else:
                    try:
                        fo.generate_eta_ome_maps = lambda *q, **k: eo
                        t.expect(fo.load_eta_ome_maps(cfg, None, None, clean=how == 'clean') is eo, 'maps returned')
                    finally:
                        fo.generate_eta_ome_maps = gen
                for x, y in zip(a, eo.dataStore):
                    w = x
                    if flag:
                        w = x - np.median(x, axis=0)
                        if not isinstance(flag, bool):
                            w = -ndimage.gaussian_laplace(w, flag / (2 * np.sqrt(2 * np.log(2))))
                    t.close(y, w, 'filtered map', 1e-9, 1e-12, flag=str(flag), how=how)


def config(alg, radius, compl, ncpu=1, grid=None):
    return NS(multiprocessing=ncpu, find_orientations=NS(use_quaternion_grid=grid, clustering=NS(algorithm=alg, radius=radius, completeness=compl)))


@check.runtime('clusters of orientations', [FO + ':run_cluster'], n=16)
def _(t):
    from hexrd.hedm import findorientations as fo
    from hexrd.core import rotations as rot
    from hexrd.core.material.symmetry import quatOfLaueGroup
    for i in t.cases():
        rng = t.rng
        lg = ['oh', 'd6h', 'd2h', 'ci'][i % 4]
        qs = quatOfLaueGroup(lg)
        ng = int(rng.integers(1, 5))
        alg = ['dbscan', 'sph-dbscan', 'fclusterdata', 'ort-dbscan'][(i // 4 + i) % 4]
        radius = 1.
        while True:
            q = rot.toFundamentalRegion((lambda x: x / np.linalg.norm(x, axis=0))(rng.normal(size=(4, ng))), crysSym=lg)
            d = [rot.misorientation(q[:, [a]], q[:, [b]], (qs,))[0][0] for a in range(ng) for b in range(a)]
            if (not d or min(d) > np.radians(12)) and q[0].min() > .5:
                break
        pts, truth, sc = [], [], []
        for g in range(ng):
            for _ in range(int(rng.integers(3, 7))):
                ax = rng.normal(size=3)
                dq = rot.quatOfAngleAxis(np.array([np.radians(.1) * rng.random()]), (ax / np.linalg.norm(ax)).reshape(3, 1))
                pts.append(rot.toFundamentalRegion(rot.quatProduct(q[:, [g]], dq), crysSym=lg)[:, 0])
                truth.append(g)
                sc.append(.8 + .2 * rng.random())
        for _ in range(5):
            x = rng.normal(size=4)
            pts.append(rot.toFundamentalRegion((x / np.linalg.norm(x)).reshape(4, 1), crysSym=lg)[:, 0])
            sc.append(.3 * rng.random())
        order = rng.permutation(len(pts))
        P = np.array(pts).T[:, order]
        s = np.array(sc)[order]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            qb, cl = fo.run_cluster(list(s) if i % 2 else s, P, qs, config(alg, radius, .5 if i % 3 else .99), min_samples=[None, 1, 2][i % 3], compl_thresh=None if i % 3 else .5)
        t.expect(qb.shape == (4, ng), 'one mean orientation per grain', got=qb.shape, want=(4, ng), algorithm=alg, group=lg)
        if qb.shape != (4, ng):
            continue
        for g in range(ng):
            mis = min(np.degrees(rot.misorientation(qb[:, [k]], q[:, [g]], (qs,))[0][0]) for k in range(ng))
            t.expect(mis < .2, 'every grain is found', misorientation=mis, algorithm=alg, group=lg)
        t.close(np.linalg.norm(qb, axis=0), np.ones(ng), 'unit quaternions', 0, 1e-9)
        one = np.zeros(len(s))
        one[2] = 1
        qb, cl = fo.run_cluster(one, P, qs, config(alg, radius, .5))
        t.expect(qb.shape == (4, 1) and np.array_equal(qb[:, 0], P[:, 2]), 'a single orientation')
        qb, cl = fo.run_cluster(0 * one, P, qs, config(alg, radius, .5))
        t.expect(qb.size == 0 and qb.shape[1] == 0, 'no orientation is complete')


@check.runtime('orientations found from their spots', [FO + ':find_orientations', FO + ':generate_orientation_fibers', FO + ':create_clustering_parameters'], n=1, thorough=6)
def _(t):
    import pathlib
    from hexrd.hedm import findorientations as fo, xrdutil
    from hexrd.core import rotations as rot
    from hexrd.core.transforms import xfcapi
    from hexrd.hedm.instrument.generate_eta_omega_maps import GenerateEtaOmeMaps
    for i in t.cases():
        rng = t.rng
        m, pd = material(keep=(0, 1, 3, 4))
        inst = instrument(rng, 2, 16)
        ng = 2
        q = rot.toFundamentalRegion((lambda x: x / np.linalg.norm(x, axis=0))(rng.normal(size=(4, ng))), crysSym=pd.laueGroup)
        nf, ome0 = 120, [0., -60.][i % 2]
        wedges = [[(ome0, ome0 + 360, nf)], [(ome0, ome0 + 360, nf)]][i % 2]
        blank = {k: np.zeros((nf,) + p.shape, np.uint8) for k, p in inst.detectors.items()}
        imsd = {k: series(x, None, wedges) for k, x in blank.items()}
        step = 2.
        eo = GenerateEtaOmeMaps(imsd, inst, pd, active_hkls=[0, 1, 3, 4], eta_step=step)
        per = np.radians([ome0, ome0 + 360])
        for k, hk in enumerate(pd.getSymHKLs()):
            eo.dataStore[k][:] = rng.random(eo.dataStore[k].shape)
            for g in range(ng):
                R = rot.rotMatOfQuat(q[:, g])
                for sol in xfcapi.oscill_angles_of_hkls(np.ascontiguousarray(hk.T), 0., R, pd.latVecOps['B'], pd.wavelength):
                    for tth, eta, ome in sol:
                        if np.isnan(tth):
                            continue
                        e = ((eta + np.pi) % (2 * np.pi)) / np.radians(step) - .5
                        o = ((ome - per[0]) % (2 * np.pi)) / np.radians(360. / nf) - .5
                        a, b = np.mgrid[:eo.dataStore[k].shape[0], :eo.dataStore[k].shape[1]]
                        eo.dataStore[k] += 1000 * np.exp(-((a - o) ** 2 + (b - e) ** 2))
        with tempfile.TemporaryDirectory() as td:
            fn = pathlib.Path(td) / 'maps.npz'
            eo.save(str(fn))
            F = NS(eta=NS(range=None if i % 2 else np.array([[-85., 85.], [95., 265.]]), tolerance=2.), omega=NS(tolerance=3.), threshold=50., use_quaternion_grid=None,
                   orientation_maps=NS(threshold=None, file=fn, filter_maps=False),
                   seed_search=NS(hkl_seeds=[1], fiber_ndiv=180, method={'label': {'filter_radius': 0, 'threshold': 100}}),
                   clustering=NS(completeness=.9, algorithm='dbscan', radius=2.))
            cfg = NS(analysis_dir=pathlib.Path(td) / 'a', material=NS(plane_data=pd), image_series=imsd, instrument=NS(hedm=inst), multiprocessing=1, find_orientations=F)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = fo.find_orientations(cfg)
            t.expect(r['scored_orientations']['score'].shape == (r['scored_orientations']['test_quaternions'].shape[1],), 'one score per orientation')
            qb = r['qbar']
            for g in range(ng):
                mis = min([np.degrees(rot.misorientation(qb[:, [k]], q[:, [g]], (pd.q_sym,))[0][0]) for k in range(qb.shape[1])], default=180.)
                t.expect(mis < 1.5, 'every grain is found', misorientation=mis)
