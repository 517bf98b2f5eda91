from .common import *
import numpy as np

check = Check('I04', assumptions=[
    'pixel values are reals in the discharged obligations; float32/float64 accumulation is covered by the bounded contract',
    'the number of frames is concrete (1 to 6) in the discharged iterator obligations, image size is arbitrary; '
    'chunk boundaries are enumerated'])
M = 'hexrd.core.imageseries.stats:'
I, J = sym('i', 'I'), sym('j', 'I')


class Frames:
    def __init__(self, v, n, shape, rd=None):
        self.n, self.shape, self.dtype = n, shape, np.dtype(float)
        self.f = [v.array(f'frame{k}', shape) for k in range(n)]

    def __getitem__(self, k):
        return self.f[k]

    def __len__(self):
        return self.n


def fold(op, xs):
    r = xs[0]
    for x in xs[1:]:
        r = op(r, x)
    return r


OPS = {
    'max': lambda xs: fold(lambda a, b: ite(le(a, b), b, a), xs),
    'min': lambda xs: fold(lambda a, b: ite(le(a, b), a, b), xs),
    'sum': lambda xs: sum_(xs),
    'average': lambda xs: sum_(xs) / len(xs)}


@check.obligations('max, min, sum and average over frames, and their chunked iterators, for every image size', [M + x for x in ('max', 'min', 'sum', 'average', 'max_iter', 'min_iter', 'sum_iter', 'average_iter', '_accumulate', '_nframes', '_chunk_stops')])
def _(v):
    R, Q = v.dim('rows'), v.dim('cols')
    hy = [le(num(1, 'I'), R), le(num(1, 'I'), Q)]
    hk = hy + [le(num(0, 'I'), I), lt(I, R), le(num(0, 'I'), J), lt(J, Q)]
    for n in (1, 2, 3, 5):
        for name, spec in OPS.items():
            for nf in (0, 2, 9):
                ims = Frames(v, n, (R, Q))
                px = [f.el((I, J)) for f in ims.f]
                use = n if nf == 0 else min(n, nf)
                f, g = v.lift(M + name), v.lift(M + name + '_iter')
                for o in v.run(lambda: f(ims, nf), hy):
                    v.prove(f'{name} of {n} frames, nframes={nf}', hk + o.pc, eq(o.value.el((I, J)), spec(px[:use])))
                for chunks in range(1, use + 1):
                    if nf and chunks not in (1, use):
                        continue
                    ims = Frames(v, n, (R, Q))
                    for o in v.run(lambda: list(g(ims, chunks, nf)), hy):
                        got = o.value
                        v.require(f'{name}_iter {n}/{nf}/{chunks}: one image per chunk', len(got) == chunks, str(len(got)))
                        # chunk sizes differ by at most one and cover the frames
                        sizes = [use // chunks + (1 if c < use % chunks else 0) for c in range(chunks)]
                        for c, a in enumerate(got[:chunks]):
                            v.prove(f'{name}_iter {n}/{nf}/{chunks}: image {c} covers the first frames', hk + o.pc, eq(a.el((I, J)), spec(px[:sum(sizes[:c + 1])])))
                        for k in range(n):
                            v.prove(f'{name}_iter: source frame {k} unchanged', hk + o.pc, eq(ims[k].el((I, J)), px[k]))


@check.obligations('chunk boundaries cover all items with sizes differing by at most one', [M + '_chunk_stops'])
def _(v):
    f = v.lift(M + '_chunk_stops')
    n = v.dim('n')
    for c in range(1, 7):
        hy = [le(num(c, 'I'), n)]
        for o in v.run(lambda: f(n, c), hy):
            s = snp.asarray(o.value)
            prev = num(-1, 'I')
            for k in range(c):
                d = L(s[k]) - prev
                prev = L(s[k])
                v.prove(f'{c} chunks: size {k}', hy + o.pc, and_(le(num(1, 'I'), d), le(num(c, 'I') * d, n + num(c - 1, 'I')), le(n - num(c - 1, 'I'), num(c, 'I') * d)))
            v.prove(f'{c} chunks: last item', hy + o.pc, eq(prev, n - 1))
        for o in () if c == 1 else v.run(lambda: f(n, c), [le(num(1, 'I'), n), lt(n, num(c, 'I'))], allow_exc=True):
            v.require(f'{c} chunks of fewer items refused', isinstance(o.exc, ValueError), repr(o.exc))


@check.runtime('statistics equal their definition for every chunking, frame count, image type and buffer', [M + x for x in ('percentile', 'percentile_iter', 'median', 'median_iter', '_toarray', '_alloc_buffer', 'max', 'min', 'sum', 'average')], n=120)
def _(t):
    from hexrd.core import imageseries
    from hexrd.core.imageseries import stats
    full = stats.STATS_BUFFER
    try:
        for k in t.cases():
            n, R, Q = (int(x) for x in t.rng.integers(1, 9, 3))
            dtype = ['uint8', 'uint16', 'int32', 'float32', 'float64'][k % 5]
            a = (t.rng.normal(size=(n, R, Q)) * 100 if np.dtype(dtype).kind == 'f' else t.rng.integers(0, 250, (n, R, Q))).astype(dtype)
            ims = imageseries.open(None, 'array', data=a.copy(), meta={})
            nf = int(t.rng.integers(0, n + 3))
            use = n if nf == 0 else min(n, nf)
            d64 = a[:use].astype(float)
            pct = float(t.rng.choice([0, 10, 37.5, 50, 90, 100]))
            frame = R * Q * a.itemsize
            stats.STATS_BUFFER = [full, 0, frame, int(frame * 2.5)][k % 4]
            data = dict(n=n, shape=(R, Q), dtype=dtype, nframes=nf, pct=pct, buffer=stats.STATS_BUFFER // frame)
            want = dict(max=lambda x: x.max(0), min=lambda x: x.min(0), sum=lambda x: x.sum(0), average=lambda x: x.mean(0))
            for name, w in want.items():
                t.close(getattr(stats, name)(ims, nf), w(d64), name, rtol=1e-4, atol=1e-3, **data)
                c = int(t.rng.integers(1, use + 1))
                seen = list(getattr(stats, name + '_iter')(ims, c, nf))
                t.expect(len(seen) == c, f'{name}_iter: one image per chunk', **data)
                sizes = np.cumsum([use // c + (1 if q < use % c else 0) for q in range(c)])
                for img, s in zip(seen, sizes):
                    t.close(img, w(d64[:s]), f'{name}_iter: image after {s} frames', rtol=1e-4, atol=1e-3, chunks=c, **data)
            if np.dtype(dtype) == np.uint8:
                t.close(stats.sum(ims, nf), d64.sum(0), 'sum does not overflow the image type', rtol=0, **data)
            wp, wm = np.percentile(d64, pct, axis=0), np.median(d64, axis=0)
            t.close(stats.percentile(ims, pct, nf), wp, 'percentile', rtol=1e-4, atol=1e-3, **data)
            t.close(stats.median(ims, nf), wm, 'median', rtol=1e-4, atol=1e-3, **data)
            c = int(t.rng.integers(1, R + 1))
            for ub in (True, False):
                for it, w in ((lambda: stats.percentile_iter(ims, pct, c, nf, ub), wp), (lambda: stats.median_iter(ims, c, nf, ub), wm)):
                    seen = list(it())
                    t.expect(len(seen) == c, 'percentile_iter: one image per chunk of rows', chunks=c, **data)
                    t.close(seen[-1], w, 'percentile_iter: last image', rtol=1e-4, atol=1e-3, chunks=c, use_buffer=ub, **data)
                    rows = np.cumsum([R // c + (1 if q < R % c else 0) for q in range(c)])
                    for img, r in zip(seen, rows):
                        t.close(img[:r], w[:r], 'percentile_iter: finished rows', rtol=1e-4, atol=1e-3, chunks=c, use_buffer=ub, **data)
            t.raises(ValueError, lambda: list(stats.max_iter(ims, use + 1, nf)), 'more chunks than frames refused', **data)
            for q in range(n):
                t.expect(np.array_equal(ims[q], a[q]), 'frames untouched', **data)
    finally:
        stats.STATS_BUFFER = full
