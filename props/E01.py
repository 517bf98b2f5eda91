"""completeness of trial orientations (paintGrid)"""
from .common import *
import itertools
import types
import numpy as np

IX = 'hexrd.hedm.indexer:'
check = Check('E01', assumptions=[
    'sample frame not inclined (chi = 0) and default beam and azimuth reference, as the scoring documents',
    'binary search proved for up to 9 limits (every outcome of every comparison); longer edge lists by bounded contract'])
TWOPI = num(2, 'R') * PI


def sorted_hyps(e, strict=True):
    return [(lt if strict else le)(a, b) for a, b in zip(e, e[1:])]


@check.obligations('bin of a value', [IX + '_find_in_range'])
def _(v):
    f = v.lift(IX + '_find_in_range')
    x = v.reals('x')
    for n in range(2, 10):
        e = list(v.reals('e', (n,)).a)
        h = sorted_hyps(e, n % 2 == 1)
        arr = v.reals('e', (n,))
        for o in v.run(lambda: f(x, arr), h):
            i = o.value
            i = int(i.args[0]) if isinstance(i, T) else int(i)
            inside = and_(le(e[0], x), lt(x, e[-1]))
            if i < 0:
                v.require(f'{n}: outside is even', i % 2 == 0, str(i))
                v.prove(f'{n}: outside', h + o.pc, not_(inside))
            else:
                v.require(f'{n}: index in range', 1 <= i <= n - 1, str(i))
                v.prove(f'{n}: inside', h + o.pc, and_(inside, le(e[i - 1], x), lt(x, e[i])))


@check.obligations('intensity in the window', [IX + '_check_dilated'])
def _(v):
    f = v.lift(IX + '_check_dilated')
    thr = v.reals('thr')
    for shape in ((1, 1), (2, 3), (3, 3), (4, 3)):
        vals = v.reals('m', shape)
        nan = np.empty(shape, object)
        m = np.empty(shape, object)
        for ij in np.ndindex(*shape):
            nan[ij] = sym(f'nan_{ij[0]}_{ij[1]}', 'B')
            m[ij] = ite(nan[ij], tm.NAN, vals.a[ij])
        arr = snp.ndarray.conc(m, np.dtype(float))
        for ome, eta in itertools.product(range(shape[0]), range(shape[1])):
            for do, de in ((0, 0), (1, 0), (0, 1), (1, 1), (5, 0), (1, 9)):
                win = [(i, j) for i in range(max(ome - do, 0), min(ome + do + 1, shape[0])) for j in range(max(eta - de, 0), min(eta + de + 1, shape[1]))]
                if len(win) > 6 and (ome, eta) != (1, 1):
                    continue
                for o in v.run(lambda: f(eta, ome, de, do, arr, thr)):
                    r = int(o.value)
                    hit = or_(*[and_(not_(nan[w]), lt(thr, vals.a[w])) for w in win])
                    anynan = or_(*[nan[w] for w in win])
                    v.require('result is -1, 0 or 1', r in (-1, 0, 1), str(r))
                    v.prove(f'{r} at {ome},{eta}', o.pc, {1: hit, 0: and_(not_(hit), not_(anynan)), -1: anynan}[r])


@check.obligations('which reflections count, and where they are looked up', [IX + '_angle_is_hit'])
def _(v):
    seen = []

    def dil(eta, ome, de, do, m, t):
        seen.append((eta, ome, de, do, m, t))
        return sym('hit', 'I')
    x, ye, yo = v.reals('tth'), v.reals('eta'), v.reals('ome')
    o1, o2 = v.reals('o1'), v.reals('o2')
    me, mo = app('mapped', ye, o1), app('mapped', yo, o2)
    f = v.lift(IX + '_angle_is_hit', contracts={IX + '_check_dilated': dil, IX + '_map_angle': lambda a, off: app('mapped', L(a), L(off))})
    bad = sym('bad', 'B')
    hit = sym('hit', 'I')
    maps = v.reals('maps', (2, 2, 3))
    thr = v.reals('thr', (2,))
    de, do = v.ints('de'), v.ints('do')
    hh = [or_(*[eq(hit, num(k, 'I')) for k in (-1, 0, 1)])]
    for ns, no in ((2, 4), (4, 2)):
        se, so = v.reals('se', (ns,)), v.reals('so', (no,))
        ee, eo = v.reals('ee', (4,)), v.reals('eo', (3,))
        hyps = hh + sorted_hyps(list(se.a), False) + sorted_hyps(list(so.a), False) + sorted_hyps(list(ee.a)) + sorted_hyps(list(eo.a))
        for hkl in (0, 1):
            ang = snp.ndarray.conc(np.array([ite(bad, tm.NAN, x), ye, yo], object), np.dtype(float))

            def th():
                seen.clear()
                r = f(ang, o1, o2, hkl, se, so, ee, eo, maps, snp.asarray(np.arange(3)), snp.asarray(np.arange(2)), de, do, thr)
                return r, list(seen)
            inside = lambda q, s: or_(*[and_(le(s.a[k], q), lt(q, s.a[k + 1])) for k in range(0, len(s.a), 2)])
            valid = and_(not_(bad), inside(me, se), inside(mo, so), le(ee.a[0], me), lt(me, ee.a[-1]), le(eo.a[0], mo), lt(mo, eo.a[-1]))
            for o in v.run(th, hyps):
                (h, t), calls = o.value
                h, t = L(h), L(t)
                v.prove('counted', hyps + o.pc, eq(t, ite(and_(valid, le(num(0, 'I'), hit)), num(1, 'I'), num(0, 'I'))))
                v.prove('hit', hyps + o.pc, eq(h, ite(and_(valid, eq(hit, num(1, 'I'))), num(1, 'I'), num(0, 'I'))))
                v.require('looked up at most once', len(calls) <= 1, '')
                for e, w, a, b, m, tt in calls:
                    e, w = (int(L(q).args[0]) for q in (e, w))
                    v.prove('bin of the reflection', hyps + o.pc, and_(le(ee.a[e], me), lt(me, ee.a[e + 1]), le(eo.a[w], mo), lt(mo, eo.a[w + 1])))
                    v.prove('window and threshold', hyps + o.pc, and_(eq(L(a), de), eq(L(b), do), eq(L(tt), thr.a[hkl])))
                    v.require('map of its hkl', m.shape == (2, 3) and all(p is q for p, q in zip(snp.asarray(m).a.ravel(), maps.a[hkl].ravel())), '')


@check.obligations('completeness is hits over counted reflections', [IX + '_filter_and_count_hits'])
def _(v):
    calls = []

    def one(ang, eo, oo, hkl, *rest):
        calls.append((hkl, eo, oo, rest))
        a = snp.asarray(ang)
        k = a.a[0]
        return app('h', k, sort='I'), app('t', k, sort='I')
    f = v.lift(IX + '_filter_and_count_hits', contracts={IX + '_angle_is_hit': one})
    lo = v.reals('lo')
    rest = [Ellipsis] * 9
    for part in ((1,), (3,), (1, 1), (2, 1), (1, 2, 1)):
        n = sum(part)
        ix = np.add.accumulate((0,) + part)
        a0, a1 = v.reals('a', (n, 3)), v.reals('b', (n, 3))
        keys = [q.a[i, 0] for i in range(n) for q in (a0, a1)]
        hs = [and_(or_(eq(app('h', k, sort='I'), num(0, 'I')), eq(app('h', k, sort='I'), num(1, 'I'))), or_(eq(app('t', k, sort='I'), num(0, 'I')), eq(app('t', k, sort='I'), num(1, 'I'))),
                   le(app('h', k, sort='I'), app('t', k, sort='I'))) for k in keys]
        per = snp.asarray([lo, lo + TWOPI])
        other = {k: Tok(k) for k in ('ee', 'se', 'so', 'eo', 'maps', 'ei', 'oi', 'de', 'do', 'thr')}

        def th():
            calls.clear()
            r = f(a0, a1, ix, other['ee'], other['se'], other['so'], other['eo'], per, other['maps'], other['ei'], other['oi'], other['de'], other['do'], other['thr'])
            return r, list(calls)
        H = sum_([tm.toreal(app('h', k, sort='I')) for k in keys])
        Tt = sum_([tm.toreal(app('t', k, sort='I')) for k in keys])
        fam = [i for i, p in enumerate(part) for _ in range(2 * p)]
        for o in v.run(th, hs):
            r, cs = o.value
            r = tm.toreal(L(r))
            v.prove(f'{part}: score', hs + o.pc, ite(eq(Tt, num(0)), eq(r, num(0)), eq(r * Tt, H)))
            v.prove(f'{part}: between 0 and 1', hs + o.pc, and_(le(num(0), r), le(r, num(1))))
            v.require(f'{part}: hkl of each reflection', [int(L(c[0]).args[0]) for c in cs] == fam, str([c[0] for c in cs]))
            for c in cs:
                v.prove(f'{part}: periods', hs + o.pc, and_(eq(L(c[1]), -PI), eq(L(c[2]), lo)))
                v.require(f'{part}: arguments', list(c[3]) == [other[k] for k in ('se', 'so', 'ee', 'eo', 'maps', 'ei', 'oi', 'de', 'do', 'thr')], '')


class Tok:
    def __init__(self, n):
        self.n = n


@check.obligations('one range of angles in one period', [IX + '_normalize_ranges'])
def _(v):
    f = v.lift(IX + '_normalize_ranges')
    s, e, off, x = v.reals('s'), v.reals('e'), v.reals('off'), v.reals('x')
    arr = lambda *a: snp.ndarray.conc(np.array(a, object), np.dtype(float))
    tiny = L(1e-8)
    h = [le(off, x), lt(x, off + TWOPI)]
    for o in v.run(lambda: f(arr(s), arr(e), off), [], allow_exc=True):
        if o.exc is not None:
            v.require('ValueError', isinstance(o.exc, ValueError), repr(o.exc))
            v.prove('refused only if empty', o.pc, le(e, s))
            continue
        r = list(snp.asarray(o.value).a.ravel())
        v.prove('limits are ordered and in the period', o.pc, and_(*[le(p, q) for p, q in zip(r, r[1:])], le(off, r[0]), le(r[-1], off + TWOPI)))
        ins = or_(*[and_(le(r[k], x), lt(x, r[k + 1])) for k in range(0, len(r), 2)])
        a, b = tm.floor((s - off) / TWOPI), tm.floor((e - off) / TWOPI)
        # x + 2 pi m in [s, e) for an m: only the periods of s and of e can hold
        cand = [or_(and_(le(s, x + TWOPI * tm.toreal(m)), lt(x + TWOPI * tm.toreal(m), e)), FALSE) for m in (a, b)]
        full = lt(s + TWOPI, e + tiny)
        hh = o.pc + h + [not_(full)]
        u, w = (s - off) / TWOPI, (e - off) / TWOPI
        same, nxt = eq(b, a), eq(b, a + 1)
        v.prove('at most one period apart', o.pc + [not_(full)], or_(same, nxt))
        pa, pb = PI * tm.toreal(a), PI * tm.toreal(b)
        v.prove('membership', hh + [same, eq(pb, pa)], eq_b(ins, or_(*cand)))
        v.prove('membership', hh + [nxt, eq(pb, pa + PI)], eq_b(ins, or_(*cand)))
        v.prove('whole period', o.pc + h + [full], ins)


def eq_b(p, q):
    return and_(or_(not_(p), q), or_(p, not_(q)))


@check.obligations('window and prediction of one orientation', [IX + 'paintGridThis'])
def _(v):
    P = {k: Tok(k) for k in ('symHKLs', 'symHKLs_ix', 'bMat', 'wavelength', 'omePeriod', 'valid_eta_spans', 'valid_ome_spans', 'omeIndices', 'etaIndices', 'etaOmeMaps', 'threshold')}
    e0, w, o0, u, te, to = (v.reals(k) for k in ('e0', 'w', 'o0', 'u', 'te', 'to'))
    P['etaEdges'] = snp.asarray([e0, e0 + w, e0 + 2 * w])
    P['omeEdges'] = snp.asarray([o0, o0 + u, o0 + 2 * u])
    P['etaTol'], P['omeTol'] = te, to
    q = Tok('quat')
    q.ndim = 1
    calls = {}

    def osc(hkls, chi, rmat, bmat, lam, *a, **k):
        calls['osc'] = (hkls, chi, rmat, bmat, lam, a, k)
        return 'first', 'second'

    def count(*a):
        calls['count'] = a
        return 'score'
    f = v.lift(IX + 'paintGridThis', contracts={IX + '_filter_and_count_hits': count, 'hexrd.core.rotations:rotMatOfQuat': lambda x: ('R', x), 'hexrd.core.transforms.xfcapi:oscill_angles_of_hkls': osc},
               overrides={('hexrd.hedm.indexer', 'paramMP'): P})
    h = [lt(num(0), w), lt(num(0), u), le(num(0), te), le(num(0), to)]
    for o in v.run(lambda: (f(q), dict(calls)), h):
        r, c = o.value
        v.require('score returned', r == 'score', '')
        hk, chi, rm, bm, lam, a, k = c['osc']
        v.require('prediction', hk is P['symHKLs'] and float(chi) == 0 and rm == ('R', q) and bm is P['bMat'] and lam is P['wavelength'] and not a and not k, '')
        a = c['count']
        v.require('counting', a[:2] == ('first', 'second') and a[2] is P['symHKLs_ix'] and [x for x in a[3:11]] == [P[k] for k in ('etaEdges', 'valid_eta_spans', 'valid_ome_spans', 'omeEdges', 'omePeriod', 'etaOmeMaps', 'etaIndices', 'omeIndices')] and a[13] is P['threshold'], '')
        for d, tol, step in ((a[11], te, w), (a[12], to, u)):
            d = tm.toreal(L(d))
            v.prove('window is the tolerance in bins', h + o.pc, and_(le((d - half()) * step, tol), le(tol, (d + half()) * step)))


class PD:
    def __init__(self, n):
        self.n = n
        self.latVecOps = {'B': Tok('B')}
        self.wavelength = Tok('lam')
        self.act = [i for i in range(n) if i % 2 == 0]

    def getHKLs(self, *ids):
        return np.array([[i, i + 1, 0] for i in ids])

    def getHKLID(self, hkls, master=False):
        assert not master
        return [self.act.index(int(h[0])) for h in np.asarray(hkls).T]

    def getSymHKLs(self):
        return [np.arange(3 * (j + 2)).reshape(3, j + 2) + 100 * j for j in range(len(self.act))]


@check.obligations('set-up of the scoring', [IX + 'paintGrid', IX + 'paintgrid_init'])
def _(v):
    got = {}

    def this(q):
        got.setdefault('q', []).append(q)
        return ('score', len(got['q']))

    def keep(p):
        got['p'] = dict(p)
    class Clock:
        @staticmethod
        def default_timer():
            return 0.

    class Pool:
        """processes: each runs the initializer, the map is one call per item"""
        def __init__(self, n, init, args):
            got['n'] = n
            init(*args)

        def map(self, fn, it, chunksize=None):
            assert chunksize is None or (chunksize == int(chunksize) and chunksize > 0)
            return [fn(x_) for x_ in it]

        def close(self):
            pass
        join = close

    class Ctx:
        pass
    Ctx.Pool = Pool
    f = v.lift(IX + 'paintGrid', contracts={IX + 'paintGridThis': this, IX + 'paintgrid_init': keep},
               overrides={('hexrd.hedm.indexer', 'timeit'): Clock, ('hexrd.hedm.indexer', 'nCPUs_DFLT'): 8, ('hexrd.core.constants', 'mp_context'): Ctx})
    pd = PD(7)
    x = v.reals('t')
    m = v.reals('m', (3, 2, 4))
    oe, ee = v.reals('oe', (3,)), v.reals('ee', (5,))
    hs = sorted_hyps(list(oe.a)) + sorted_hyps(list(ee.a))
    quats = v.reals('q', (4, 5))

    class Maps:
        planeData = pd
        iHKLList = [4, 0, 6]
        dataStore = [m[i] for i in range(3)]
        etaEdges, omeEdges = ee, oe
    A, B = v.reals('A'), v.reals('B')
    for name, kw in (('plain', {}), ('scalar', dict(threshold=x)), ('list', dict(threshold=snp.asarray([x, A, B]))), ('processes', dict(threshold=x, doMultiProc=True, nCPUs=8)), ('ranges', dict(omegaRange=[(A, B), (B, x)], etaRange=[(x, A)], bMat=Tok('other'), omeTol=A, etaTol=B, omePeriod=Tok('per')))):
        def th():
            got.clear()
            r = f(quats, Maps(), **kw)
            return r, dict(got)
        for o in v.run(th, hs):
            r, g = o.value
            p = g['p']
            v.require(f'{name}: one score per orientation, in order', r == [('score', i + 1) for i in range(5)], str(r))
            for i, q in enumerate(g['q']):
                v.prove(f'{name}: orientation {i}', hs + o.pc, and_(*[eq(L(a), b) for a, b in zip(snp.asarray(q).a.ravel(), quats.a[:, i])]))
            fam = [pd.getSymHKLs()[pd.act.index(k)] for k in Maps.iHKLList]
            sh = np.array([[float(L(c).args[0]) for c in r_] for r_ in rows(p['symHKLs'])])
            ints = lambda k: [int(L(c).args[0]) for c in snp.asarray(p[k]).a]
            v.require(f'{name}: equivalents of the mapped hkls', np.array_equal(sh, np.hstack(fam).T) and ints('symHKLs_ix') == np.add.accumulate([0] + [q_.shape[1] for q_ in fam]).tolist(), str(sh))
            v.require(f'{name}: bins', [int(L(k).args[0]) for k in snp.asarray(p['etaIndices']).a] == [0, 1, 2, 3] and [int(L(k).args[0]) for k in snp.asarray(p['omeIndices']).a] == [0, 1], '')
            v.require(f'{name}: edges', p['etaEdges'] is ee and p['omeEdges'] is oe and p['wavelength'] is pd.wavelength, '')
            st = snp.asarray(p['etaOmeMaps'])
            v.require(f'{name}: maps in order', st.shape == (3, 2, 4) and all(a is b for a, b in zip(st.a.ravel(), m.a.ravel())), '')
            t = list(snp.asarray(p['threshold']).a)
            if name == 'processes':
                v.require('number of processes', g['n'] == 8, str(g))
            if name in ('scalar', 'processes'):
                v.prove('same threshold for all', hs + o.pc, and_(*[eq(L(k), x) for k in t]))
            if name == 'plain':
                for j, d in enumerate(Maps.dataStore):
                    es = [d.a[ij] for ij in np.ndindex(2, 4)] if hasattr(d, 'a') else []
                    v.prove('default threshold', hs + o.pc, eq(L(t[j]), (sum_(es) / 8 + app('nanmedian', *es)) / 2))
            if name == 'list':
                v.prove('threshold of each hkl', hs + o.pc, and_(eq(L(t[0]), x), eq(L(t[1]), A), eq(L(t[2]), B)))
            v.require(f'{name}: number of thresholds', len(t) == 3, '')
            lim = [list(snp.asarray(p[k]).a) for k in ('omeMin', 'omeMax', 'etaMin', 'etaMax')]
            want = [[A, B], [B, x], [x], [A]] if name == 'ranges' else [[oe.a[0]], [oe.a[-1]], [-PI], [PI]]
            for a, b in zip(lim, want):
                v.require(f'{name}: number of ranges', len(a) == len(b), '')
                v.prove(f'{name}: ranges', hs + o.pc, and_(*[eq(L(c), d) for c, d in zip(a, b)]))
            v.require(f'{name}: lattice', p['bMat'] is (kw['bMat'] if 'bMat' in kw else pd.latVecOps['B']), '')
            if name == 'ranges':
                v.require('period and tolerances', p['omePeriod'] is kw['omePeriod'] and p['omeTol'] is A and p['etaTol'] is B, '')
    for o in v.run(lambda: f(quats, Maps(), threshold=[x, A]), hs, allow_exc=True):
        v.require('wrong number of thresholds', isinstance(o.exc, RuntimeError), repr(o.exc))
    # initialization
    g = v.lift(IX + 'paintgrid_init', contracts={IX + '_normalize_ranges': lambda lo, hi, off, ccw=False: (lo, hi, off, ccw)})
    p = {k: Tok(k) for k in ('etaMin', 'etaMax', 'omeMin', 'omeMax')}
    p['omePeriod'] = [A + TWOPI, A]
    for o in v.run(lambda: g(p)):
        a, b = p['valid_eta_spans'], p['valid_ome_spans']
        v.require('spans', a[:2] == (p['etaMin'], p['etaMax']) and b[:2] == (p['omeMin'], p['omeMax']) and not a[3] and not b[3], '')
        v.prove('periods', o.pc, and_(eq(L(a[2]), -PI), eq(L(b[2]), A)))


def member(x, lo, hi):
    return any(((x - a) % (2 * np.pi)) < b - a or b - a >= 2 * np.pi for a, b in zip(lo, hi))


@check.runtime('ranges of angles', [IX + '_normalize_ranges', IX + '_find_in_range'], n=150)
def _(t):
    from hexrd.hedm import indexer
    for i in t.cases():
        rng = t.rng
        k = int(rng.integers(1, 7))
        cut = np.sort(rng.uniform(0, 2 * np.pi, 2 * k))
        if rng.random() < .3:
            cut = np.radians(np.sort(rng.permutation(72)[:2 * k]) * 5.)
        if rng.random() < .3 and k > 1:
            cut[2] = cut[1]   # touching
        base = float(rng.choice([-np.pi, 0., rng.normal() * 3]))
        lo, hi = cut[::2] + base, cut[1::2] + base
        order = rng.permutation(k)
        m = 2 * np.pi * rng.integers(-1, 2, k)
        lo, hi = (lo + m)[order], (hi + m)[order]
        off = float(rng.choice([-np.pi, 0., rng.normal() * 3]))
        try:
            spans = indexer._normalize_ranges(lo, hi, off)
        except ValueError as ex:
            t.expect(False, 'separate ranges are accepted', lo=lo, hi=hi, offset=off, exc=repr(ex))
            continue
        for x in rng.uniform(off, off + 2 * np.pi, 40):
            d = min(abs((x - q + np.pi) % (2 * np.pi) - np.pi) for q in [*lo, *hi])
            if d > 1e-7:
                t.expect((indexer._find_in_range(x, spans) % 2 == 1) == member(x, lo, hi), 'inside a range', lo=lo, hi=hi, offset=off, x=x, spans=spans)
        if k > 1:
            j = int(rng.integers(k))
            lo2, hi2 = lo.copy(), hi.copy()
            nxt = min(range(k), key=lambda q: ((lo[q] - lo[j]) % (2 * np.pi)) if q != j else 9)
            hi2[j] = lo2[j] + ((lo[nxt] - lo[j]) % (2 * np.pi)) + .5 * (hi[nxt] - lo[nxt])
            if hi2[j] - lo2[j] < 2 * np.pi - .01 and hi[nxt] - lo[nxt] > .01 and (lo[nxt] - lo[j]) % (2 * np.pi) > .001:
                t.raises(ValueError, lambda: indexer._normalize_ranges(lo2, hi2, off), 'overlapping ranges are refused', lo=lo2, hi=hi2, offset=off)
        t.raises(ValueError, lambda: indexer._normalize_ranges(hi, lo, off), 'reversed ranges are refused')
        t.expect(np.allclose(indexer._normalize_ranges(np.array([lo[0]]), np.array([lo[0] + 2 * np.pi + float(rng.random())]), off), [off, off + 2 * np.pi]), 'whole circle')
        edges = np.sort(rng.normal(size=int(rng.integers(2, 500))))
        for x in [*rng.normal(size=20), *edges[:5], edges[-1]]:
            w = int(np.searchsorted(edges, x, side='right'))
            t.expect(indexer._find_in_range(x, edges) == (w if 0 < w < len(edges) else -2), 'bin', x=x)


def maps_of(rng, pd, ids, nome, neta, ome0, span):
    class M:
        pass
    M.planeData = pd
    M.iHKLList = np.array(ids)
    M.etaEdges = np.linspace(-np.pi, np.pi, neta + 1)
    M.omeEdges = np.radians(ome0) + np.linspace(0, np.radians(span), nome + 1)
    M.dataStore = [np.zeros((nome, neta)) for _ in ids]
    return M


@check.runtime('completeness of orientations', [IX + 'paintGrid', IX + 'paintGridThis'], n=10)
def _(t):
    from hexrd.hedm import indexer
    from hexrd.core.material.material import Material, _kev
    from hexrd.core.valunits import valWUnit
    from hexrd.core import rotations as rot
    from hexrd.core.transforms import xfcapi
    m = Material(kev=valWUnit('e', 'energy', 60., 'keV'), dmin=valWUnit('d', 'length', 0.9, 'angstrom'))
    pd = m.planeData
    ex = np.ones(len(pd.exclusions), bool)
    ex[[0, 1, 3, 4]] = False
    pd.exclusions = ex
    for i in t.cases():
        rng = t.rng
        ids = [[0, 1, 3, 4], [3, 0], [4], [1, 4, 0]][i % 4]
        ome0, span = [(0, 360), (-180, 360), (-60, 120), (30, 360)][i % 4]
        nome, neta = 72, 60
        M = maps_of(rng, pd, ids, nome, neta, ome0, span)
        per = np.radians([ome0, ome0 + 360.])
        q = rot.fixQuat(rng.normal(size=(4, 6)) / 1.)
        q = q / np.linalg.norm(q, axis=0)
        sym_ = dict(zip([k for k in range(len(ex)) if not ex[k]], pd.getSymHKLs()))

        def spots(quat, k):
            R = rot.rotMatOfQuat(quat)
            for sol in xfcapi.oscill_angles_of_hkls(np.ascontiguousarray(sym_[k].T), 0., R, pd.latVecOps['B'], pd.wavelength):
                for tth, eta, ome in sol:
                    if not np.isnan(tth):
                        e = (eta + np.pi) % (2 * np.pi) - np.pi
                        o = (ome - per[0]) % (2 * np.pi) + per[0]
                        yield e, o
        for s, k in enumerate(ids):
            for e, o in spots(q[:, 0], k):
                a, b = np.searchsorted(M.omeEdges, o, 'right') - 1, np.searchsorted(M.etaEdges, e, 'right') - 1
                if 0 <= a < nome and 0 <= b < neta:
                    M.dataStore[s][a, b] = 10. * (s + 1)
            M.dataStore[s] += rng.random((nome, neta))
        thr = [5., [5., 10., 20., 30.][:len(ids)]][i % 2]
        eta_rng = None if i % 3 == 0 else np.radians([(-85, 85), (95, 265)])
        ome_rng = None if i % 2 else np.radians([(ome0 + 5, ome0 + 40), (ome0 + 60, ome0 + 100)])
        tol = [0., 5.][i % 2]
        kw = dict(threshold=thr, omegaRange=ome_rng, etaRange=eta_rng, omeTol=np.radians(tol), etaTol=np.radians(tol), omePeriod=per)
        got = indexer.paintGrid(q, M, **kw)
        for j in range(q.shape[1]):
            hits = tot = 0
            edge = False
            for s, k in enumerate(ids):
                for e, o in spots(q[:, j], k):
                    er = eta_rng if eta_rng is not None else [(-np.pi, np.pi)]
                    orr = ome_rng if ome_rng is not None else [(M.omeEdges[0], M.omeEdges[-1])]
                    edge |= any(abs((x - y + np.pi) % (2 * np.pi) - np.pi) < 1e-6 for x, l in ((e, np.ravel(er)), (o, np.ravel(orr)), (e, M.etaEdges), (o, M.omeEdges)) for y in l)
                    if not member(e, *zip(*er)) or not member(o, *zip(*orr)):
                        continue
                    a, b = np.searchsorted(M.omeEdges, o, 'right') - 1, np.searchsorted(M.etaEdges, e, 'right') - 1
                    if not (0 <= a < nome and 0 <= b < neta):
                        continue
                    da, db = int(round(np.radians(tol) / (M.omeEdges[1] - M.omeEdges[0]))), int(round(np.radians(tol) / (M.etaEdges[1] - M.etaEdges[0])))
                    win = M.dataStore[s][max(a - da, 0):a + da + 1, max(b - db, 0):b + db + 1]
                    tot += 1
                    hits += bool((win > (thr if np.isscalar(thr) else thr[s])).any())
            if j == 0 and tot and not edge:
                t.expect(abs(got[0] - 1) < 1e-12, 'the orientation that made the maps is complete', got=got[0])
            if not edge:
                t.close(got[j], hits / tot if tot else 0., 'fraction of predicted reflections with intensity', orientation=q[:, j])
        t.expect(indexer.paintGrid(q[:, 1], M, **kw) == [got[1]], 'a single orientation')
        if i == 0:
            par = indexer.paintGrid(q[:, :3], M, doMultiProc=True, nCPUs=4, **kw)
            t.expect(par == got[:3], 'processes give the same scores', got=par, want=got[:3])
        Mn = maps_of(rng, pd, ids, nome, neta, ome0, span)
        Mn.dataStore = [d.copy() for d in M.dataStore]
        for d in Mn.dataStore:
            d[:, -2:] = np.nan
        kw['threshold'] = None
        g = indexer.paintGrid(q, Mn, **kw)
        t.expect(g[0] > .5 or got[0] == 0, 'default threshold with missing bins', got=g[0])
