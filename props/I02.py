from .common import *
import numpy as np

check = Check('I02', assumptions=[
    'omega values are reals in the discharged obligations; rounding at wedge boundaries is covered by the bounded contract',
    'the number of wedges (1 to 3) and, for wedge construction, of frames (1 to 4) is concrete in the discharged obligations; all angles and step counts are arbitrary'])
M = 'hexrd.core.imageseries.omega:'
O = M + 'OmegaImageSeries'
W = M + 'OmegaWedges'


def series(v, nw):
    C = v.lift(O)
    s = object.__new__(C)
    om = v.reals('wo', (nw, 3))
    st = v.ints('ns', (nw,))
    a = np.empty((nw, 2), object)
    hy, f0 = [], num(0, 'I')
    for w in range(nw):
        a[w, 0], a[w, 1] = f0, st[w]
        f0 = f0 + st[w]
        hy += [le(num(1, 'I'), st[w]), lt(num(tm.Fraction(1, 10000)), om[w, 2]), eq(om[w, 1] - om[w, 0], om[w, 2] * tm.toreal(st[w])), le(om[w, 1] - om[w, 0], num(360))]
    s._wedge_om, s._wedge_f = om, snp.ndarray.conc(a, np.dtype(int))
    s._omegawedges = None
    return s, om, st, a, hy


@check.obligations('omega to frame: the frame returned contains the angle modulo 360; none is returned only when no wedge contains it', [O + '.omega_to_frame'])
def _(v):
    x = v.reals('om')
    K = sym('K', 'I')
    for nw in (1, 2, 3):
        s, om, st, a, hy = series(v, nw)
        for o in v.run(lambda: s.omega_to_frame(x), hy):
            f, w = o.value
            h = hy + o.pc
            hl = [q for q in hy if q.op != 'eq'] + o.pc  # the linear part suffices
            if isinstance(w, int) and w < 0 or isinstance(w, T) and w.op == 'num' and w.args[0] < 0:
                v.require(f'{nw} wedges: both -1', str(f) == '-1' or L(f).op == 'num' and L(f).args[0] == -1)
                for k in range(nw):
                    y = x + 360 * tm.toreal(K)
                    v.prove(f'{nw} wedges: none found means outside wedge {k}', hl + [tri(x, om[k, 0], K)], not_(and_(le(om[k, 0], y), lt(y, om[k, 1]))))
                continue
            w = int(w if isinstance(w, int) else w.args[0])
            f = L(f)
            v.prove(f'{nw} wedges: frame belongs to wedge {w}', h, and_(le(a[w, 0], f), lt(f, a[w, 0] + st[w])))
            lo = om[w, 0] + om[w, 2] * tm.toreal(f - a[w, 0])
            z = om[w, 0] + snp.mod(x - om[w, 0], 360)
            v.prove(f'{nw} wedges: angle inside the frame', h, and_(le(lo, L(z)), lt(L(z), lo + om[w, 2])))
            for k in range(w):
                y = x + 360 * tm.toreal(K)
                v.prove(f'{nw} wedges: first wedge containing the angle', hl + [tri(x, om[k, 0], K)], not_(and_(le(om[k, 0], y), lt(y, om[k, 1]))))


@check.obligations('a range of omegas gives the frames from the one holding its start to the one holding its end', [O + '.omegarange_to_frames'])
def _(v):
    lo, hi = v.reals('lo'), v.reals('hi')
    tol = num(tm.Fraction(1, 10 ** 6))
    for nw in (1, 2):
        for w0 in range(-1, nw):
            for w1 in range(-1, nw):
                s, om, st, a, hy = series(v, nw)
                C = type(s)
                # two or three frames per wedge, any angles; the ends in any frames of wedges w0, w1 (contract of omega_to_frame)
                for steps in ((1,) * nw, (3,) * nw, (2, 3)[:nw]):
                    first = [sum(steps[:w]) for w in range(nw)]
                    s._wedge_f = np.array([[first[w], steps[w]] for w in range(nw)])
                    for f0 in (range(first[w0], first[w0] + steps[w0]) if w0 >= 0 else [-1]):
                        for f1 in (range(first[w1], first[w1] + steps[w1]) if w1 >= 0 else [-1]):
                            C.omega_to_frame = lambda self, x, f0=f0, f1=f1: (f0, w0) if x is lo else (f1, w1)
                            h0 = hy + [eq(st[w], num(steps[w], 'I')) for w in range(nw)] + [le(lo, hi), lt(hi, lo + 360)]
                            if w0 >= 0:
                                K = sym('K0', 'I')
                                y0 = lo + 360 * tm.toreal(K)
                                p0 = om[w0, 0] + om[w0, 2] * (f0 - first[w0])
                                h0 += [le(p0, y0), lt(y0, p0 + om[w0, 2])]
                            if w1 >= 0:
                                K = sym('K1', 'I')
                                y1 = hi + 360 * tm.toreal(K)
                                p1 = om[w1, 0] + om[w1, 2] * (f1 - first[w1])
                                h0 += [le(p1, y1), lt(y1, p1 + om[w1, 2])]
                            if smt_unsat(h0):
                                continue
                            for o in v.run(lambda: s.omegarange_to_frames(lo, hi), h0):
                                h, r = h0 + o.pc, [int(q) for q in o.value]
                                tag = f'{steps} {w0}:{f0} to {w1}:{f1}'
                                if w0 < 0 or w1 < 0:
                                    v.require(f'{tag}: an end outside gives no frames', r == [])
                                    continue
                                run = list(range(f0, f1 + 1))
                                wrap = list(range(f0, first[w0] + steps[w0])) + list(range(first[w1], f1 + 1))
                                gap = L(om[w1, 0] - om[w0, 1])
                                near = or_(*[and_(le(-2 * tol, gap - 360 * k), le(gap - 360 * k, 2 * tol)) for k in (-2, -1, 0, 1, 2)])
                                adjoin = or_(*[eq(gap, num(360 * k)) for k in (-2, -1, 0, 1, 2)])
                                one = lt(hi - lo, om[w0, 2])
                                if w0 == w1 and f1 > f0:
                                    v.require(f'{tag}: frames in between', r == run, str(r))
                                elif w0 == w1 and f1 == f0 and r == [f0]:
                                    # one frame: the whole range lies in it, or the wedge is that frame
                                    v.prove(f'{tag}: single frame only for a range inside it', h, one)
                                elif r == []:
                                    v.prove(f'{tag}: nothing only across a gap', h + [lt(om[w0, 2], num(360)), le(L(gap), num(700)), le(num(-700), L(gap))], not_(adjoin) if w0 != w1 or f1 < f0 else and_(not_(adjoin), not_(one)))
                                else:
                                    v.require(f'{tag}: to the end of the wedge and on from the next', r == wrap, str(r))
                                    v.prove(f'{tag}: wedges adjoin', h + [le(gap, num(700)), le(num(-700), gap)], near)


def tri(x, a, K):
    """trichotomy of an integer (a tautology, given as a hint)"""
    out = []

    def go(e):
        if e.op == 'floor':
            out.append(e)
        for c in tm.children(e):
            go(c)
    go(L(snp.mod(x - a, 360)))
    q = out[0] + K
    return or_(le(q, num(-1, 'I')), eq(q, num(0, 'I')), le(num(1, 'I'), q))


def smt_unsat(h):
    from vc import smt
    return smt.check([tm.tobool(x) for x in h], 3000) == 'unsat'


@check.obligations('wedges partition the frames; each is contiguous with uniform steps and starts and stops with its frames', [O + '._make_wedges', W + '.addwedge', O + '.nwedges', W + '.nwedges', W + '.wframes', O + '.wedge'])
def _(v):
    C = v.lift(O)
    tol = num(tm.Fraction(1, 10 ** 6))
    for n in (1, 2, 3, 4):
        om = v.reals('om', (n, 2))
        C.__len__ = lambda s: n
        hy = [lt(om[k, 0], om[k, 1]) for k in range(n)]

        def go():
            s = object.__new__(C)
            s._omega = om
            s._make_wedges()
            return s
        dl = [om[k, 1] - om[k, 0] for k in range(n)]
        within = lambda a: and_(le(-tol, a), le(a, tol))
        for o in v.run(go, hy, max_paths=500):
            s, h = o.value, hy + o.pc
            f = [[int(str(L(s._wedge_f[w, c]))) for c in (0, 1)] for w in range(s._wedge_f.shape[0])]
            v.require(f'{n} frames: every frame in one wedge, in order', f[0][0] == 0 and all(a[0] + a[1] == b[0] for a, b in zip(f, f[1:])) and f[-1][0] + f[-1][1] == n and all(a[1] > 0 for a in f), str(f))
            v.require(f'{n} frames {f}: wedge list agrees', s.nwedges == len(f) and s._omegawedges.wframes == n and [w['nsteps'] for w in s._omegawedges.wedges] == [a[1] for a in f])
            for w, (a, m) in enumerate(f):
                v.prove(f'{n} frames {f}: start of wedge {w}', h, and_(eq(L(s._wedge_om[w, 0]), om[a, 0]), eq(L(s._omegawedges.wedges[w]['ostart']), om[a, 0])))
                v.prove(f'{n} frames {f}: stop of wedge {w}', h, and_(eq(L(s._wedge_om[w, 1]), om[a + m - 1, 1]), eq(L(s._omegawedges.wedges[w]['ostop']), om[a + m - 1, 1])))
                v.prove(f'{n} frames {f}: step of wedge {w}', h, and_(eq(L(s._wedge_om[w, 2]) * m, om[a + m - 1, 1] - om[a, 0]), eq(L(s.wedge(w)['delta']) * m, om[a + m - 1, 1] - om[a, 0])))
                for k in range(a + 1, a + m):
                    v.prove(f'{n} frames {f}: frame {k} continues the wedge', h, and_(within(om[k, 0] - om[k - 1, 1]), within(dl[k] - dl[a])))
                if a:
                    p = f[w - 1][0]
                    v.prove(f'{n} frames {f}: a new wedge begins only at a break', h, not_(and_(within(om[a, 0] - om[a - 1, 1]), within(dl[a] - dl[p]))))
        # an interval that does not increase is refused
        for k in range(n - 1):
            hb = [lt(om[j, 0], om[j, 1]) for j in range(n) if j != k] + [le(om[k, 1], om[k, 0] - num(tm.Fraction(1, 1000)))]
            hb += [lt(num(tm.Fraction(1, 100)), dl[j]) for j in range(n) if j != k]
            for o in v.run(go, hb, max_paths=500, allow_exc=True):
                v.require(f'{n} frames: decreasing interval {k} refused', o.exc is not None and type(o.exc).__name__ == 'OmegaSeriesError', repr(o.exc))


@check.obligations('omegas of the wedges: consecutive equal steps from start to stop of each wedge', [W + '.omegas', W + '.addwedge', W + '.delwedge', W + '.wframes'])
def _(v):
    C = v.lift(W)
    for steps in ((1,), (3,), (2, 3), (1, 2, 2)):
        lo, hi = v.reals('lo', (len(steps),)), v.reals('hi', (len(steps),))

        def go():
            w = C(sum(steps))
            for k, n in enumerate(steps):
                w.addwedge(lo[k], hi[k], n)
            return w, w.omegas
        for o in v.run(go):
            w, a = o.value
            r = 0
            for k, n in enumerate(steps):
                for q in range(n):
                    for e in (0, 1):
                        v.prove(f'{steps}: wedge {k} step {q}.{e}', o.pc, eq(L(a[r, e]), lo[k] + (hi[k] - lo[k]) * tm.Fraction(q + e, n)))
                    r += 1
            v.require(f'{steps}: one row per frame', a.shape == (sum(steps), 2))
        for o in v.run(lambda: (lambda w: (w.addwedge(lo[0], hi[0], steps[0] + 1), w.omegas))(C(steps[0])), allow_exc=True):
            v.require(f'{steps}: frame count mismatch refused', type(o.exc).__name__ == 'OmegaSeriesError', repr(o.exc))
        c = C(9)
        for k, n in enumerate(steps):
            c.addwedge(k, k + 1, n, loc=0)
        v.require(f'{steps}: wedges inserted at a position', [d['ostart'] for d in c.wedges] == list(range(len(steps)))[::-1] and c.nwedges == len(steps))
        c.delwedge(0)
        v.require(f'{steps}: wedge deleted', [d['ostart'] for d in c.wedges] == list(range(len(steps) - 1))[::-1])


@check.runtime('omega lookup on real imageseries agrees with a search over the frames', [O, W], n=400)
def _(t):
    from hexrd.core import imageseries
    from hexrd.core.imageseries.omega import OmegaImageSeries, OmegaWedges, OmegaSeriesError
    for k in t.cases():
        nw = int(t.rng.integers(1, 4))
        style = k % 4
        lo, steps, ws = float(t.rng.integers(-200, 200)), [], []
        if style == 0:      # full circle in one wedge
            n = int(t.rng.choice([1, 2, 3, 7, 36, 360, 49]))
            ws = [(lo, lo + 360., n)]
        elif style == 1:    # adjoining wedges with different steps, possibly closing the circle or jumping by 360
            q = t.rng.integers(1, 5, nw)
            c = lo
            for w in range(nw):
                n = int(t.rng.integers(1, 9))
                width = 360. / nw
                shift = 360. * int(t.rng.integers(-1, 2))
                ws.append((c + shift, c + width + shift, n))
                c += width
        else:               # separate wedges
            c = lo
            for w in range(nw):
                n = int(t.rng.integers(1, 9))
                d = float(t.rng.choice([0.25, 0.1, 1.0, 3.0, 10.]))
                ws.append((c, c + n * d, n))
                c += n * d + float(t.rng.choice([0.5, 5., 20.]))
        n = sum(w[2] for w in ws)
        ow = OmegaWedges(n)
        for w in ws:
            ow.addwedge(*w)
        om = ow.omegas
        ims = imageseries.open(None, 'array', data=np.zeros((n, 2, 2)), meta=dict(omega=om))
        s = OmegaImageSeries(ims)
        data = dict(wedges=ws)
        t.close(s.omega, om, 'omegas kept', **data)
        t.close(s.omegawedges.omegas, om, 'wedges reproduce the frame omegas', rtol=0, atol=1e-5, **data)
        t.expect(s.omegawedges.wframes == n, 'wedges cover the frames', **data)

        def holds(f, x, slack=0.):
            a, b = om[f]
            return a - slack <= a + (x - a) % 360 < b + slack or a - slack <= a + (x - a + 1e-9) % 360 - 1e-9 < b + slack
        probes = [float(t.rng.uniform(-400, 400)) for _ in range(4)] + [float(om[int(t.rng.integers(n))].mean() + 360 * t.rng.integers(-2, 3)) for _ in range(4)]
        probes += [float(np.nextafter(om[-1, 1], -1e9)), float(om[0, 0]), float(om[-1, 0]), float(np.nextafter(om[0, 1], -1e9))]
        for x in probes:
            f, w = s.omega_to_frame(x)
            inside = [q for q in range(n) if om[q, 0] + 1e-7 <= om[q, 0] + (x - om[q, 0]) % 360 < om[q, 1] - 1e-7]
            if inside:
                t.expect(f in inside, 'frame of an angle', om=x, got=f, want=inside, **data)
            if f >= 0:
                t.expect(f < n and holds(f, x, 1e-7), 'frame contains the angle', om=x, got=f, **data)
            else:
                t.expect(not inside and (f, w) == (-1, -1), 'angle found when some frame contains it', om=x, **data)
        for _ in range(6):
            a = float(om[int(t.rng.integers(n))].mean() + 0.21 * (om[0, 1] - om[0, 0]))
            span = float(t.rng.choice([0., 0.01, 0.3, 2.4, 30, 170, 300]))
            b = a + span
            r = s.omegarange_to_frames(a, b)
            ends = [[q for q in range(n) if om[q, 0] + 1e-7 <= om[q, 0] + (x - om[q, 0]) % 360 < om[q, 1] - 1e-7] for x in (a, b)]
            fa, fb = s.omega_to_frame(a)[0], s.omega_to_frame(b)[0]
            if len(ends[0]) != 1 or len(ends[1]) != 1:
                continue
            d2 = dict(data, lo=a, hi=b, got=list(r))
            # walk the frames from the start until the end of the range is reached
            f, want, x = ends[0][0], [ends[0][0]], om[ends[0][0], 0] + (a - om[ends[0][0], 0]) % 360
            left = span
            okw = True
            while left >= om[f, 1] - x:
                left -= om[f, 1] - x
                nxt = [q for q in range(n) if abs((om[q, 0] - om[f, 1] + 180) % 360 - 180) < 1e-7]
                if not nxt or len(want) > n + 1:
                    okw = False
                    break
                f = nxt[0]
                x = om[f, 0]
                want.append(f)
            wseq = [s.omega_to_frame(float(om[q].mean()))[1] for q in want]
            spans = 1 + sum(p != q or want[e + 1] <= want[e] for e, (p, q) in enumerate(zip(wseq, wseq[1:])))
            if not okw:
                t.expect(len(r) == 0, 'no frames for a range with a gap', **d2)
            elif spans <= 2 and n > 1:     # (a lone frame of a full turn is its own neighbour)
                t.expect(list(r) == want, 'frames of a range', want=want, **d2)
        if n > 1:
            bad = om.copy()
            bad[0] = bad[0, ::-1]
            t.raises(OmegaSeriesError, lambda: OmegaImageSeries(imageseries.open(None, 'array', data=np.zeros((n, 2, 2)), meta=dict(omega=bad))), 'decreasing omega refused', **data)
        t.raises(OmegaSeriesError, lambda: OmegaImageSeries(imageseries.open(None, 'array', data=np.zeros((n + 1, 2, 2)), meta=dict(omega=om))), 'frame count mismatch refused', **data)
        t.raises(OmegaSeriesError, lambda: OmegaImageSeries(imageseries.open(None, 'array', data=np.zeros((n, 2, 2)), meta={})), 'missing omega refused', **data)
