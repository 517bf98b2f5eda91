from .common import *
import itertools
import numpy as np

check = Check('I01', assumptions=[
    'pixel values are reals in the discharged obligations (integer types are covered by the bounded contract)',
    'numpy.insert and scipy.ndimage.gaussian_laplace are external: the bounded contract compares with their definition'])
M = 'hexrd.core.imageseries.process:'
P = M + 'ProcessedImageSeries'
I, J = sym('i', 'I'), sym('j', 'I')


class Source:
    """contract of an imageseries: frame k is an image, a region of it is that slice of the frame"""

    def __init__(self, v, n, shape, meta=None):
        self.v, self.n, self.shape, self.metadata = v, n, shape, meta or {}
        self.asked = []

    def frame(self, k):
        return self.v.array(f'frame{k}', self.shape)

    def __getitem__(self, k):
        self.asked.append(k)
        return self.frame(k)

    def get_region(self, k, r):
        self.asked.append(k)
        return self.frame(k)[r[0][0]:r[0][1], r[1][0]:r[1][1]]

    def __len__(self):
        return self.n


def inb(v, a):
    return [le(num(0, 'I'), I), lt(I, L(a.shape[0])), le(num(0, 'I'), J), lt(J, L(a.shape[1]))]


FLIPS = {
    # code: (transposed, index in the source of pixel (i, j) of an n x m result)
    'y': (False, lambda i, j, n, m: (i, m - 1 - j)), 'v': (False, lambda i, j, n, m: (i, m - 1 - j)),
    'x': (False, lambda i, j, n, m: (n - 1 - i, j)), 'h': (False, lambda i, j, n, m: (n - 1 - i, j)),
    'vh': (False, lambda i, j, n, m: (n - 1 - i, m - 1 - j)), 'hv': (False, lambda i, j, n, m: (n - 1 - i, m - 1 - j)),
    'r180': (False, lambda i, j, n, m: (n - 1 - i, m - 1 - j)),
    't': (True, lambda i, j, n, m: (j, i)), 'T': (True, lambda i, j, n, m: (j, i)),
    'ccw90': (True, lambda i, j, n, m: (j, n - 1 - i)), 'r90': (True, lambda i, j, n, m: (j, n - 1 - i)),
    'cw90': (True, lambda i, j, n, m: (m - 1 - j, i)), 'r270': (True, lambda i, j, n, m: (m - 1 - j, i)),
    None: (False, lambda i, j, n, m: (i, j)), 'none': (False, lambda i, j, n, m: (i, j))}


@check.obligations('each operation maps the frame as specified, for every image size', [P + '._flip', P + '._rectangle', P + '._subtract_dark', P + '._add', P + '.__getitem__', P + '._process_frame'])
def _(v):
    C = v.lift(P)
    R, Q = v.dim('rows'), v.dim('cols')
    hy = [le(num(1, 'I'), R), le(num(1, 'I'), Q)]
    src = Source(v, 3, (R, Q))
    f = src.frame(1)
    for code, (tr, at) in FLIPS.items():
        for o in v.run(lambda: C(src, [('flip', code)])[1], hy):
            a = o.value
            n, m = (Q, R) if tr else (R, Q)
            v.prove(f'flip {code}: shape', hy + o.pc, and_(eq(L(a.shape[0]), n), eq(L(a.shape[1]), m)))
            i, j = at(I, J, n, m)
            h = hy + o.pc + [le(num(0, 'I'), I), lt(I, n), le(num(0, 'I'), J), lt(J, m)]
            v.prove(f'flip {code}: pixel', h, eq(a.el((I, J)), f.el((L(i), L(j)))))
    r = [v.dim(x) for x in ('r0', 'r1', 'c0', 'c1')]
    hr = hy + [le(num(0, 'I'), r[0]), lt(r[0], r[1]), le(r[1], R), le(num(0, 'I'), r[2]), lt(r[2], r[3]), le(r[3], Q)]
    box = ((r[0], r[1]), (r[2], r[3]))
    for tag, ops in (('first operation', [('rectangle', box)]), ('later operation', [('flip', None), ('rectangle', box)])):
        for o in v.run(lambda: C(src, ops)[1], hr):
            a = o.value
            v.prove(f'rectangle as {tag}: shape', hr + o.pc, and_(eq(L(a.shape[0]), r[1] - r[0]), eq(L(a.shape[1]), r[3] - r[2])))
            h = hr + o.pc + [le(num(0, 'I'), I), lt(I, r[1] - r[0]), le(num(0, 'I'), J), lt(J, r[3] - r[2])]
            v.prove(f'rectangle as {tag}: pixel', h, eq(a.el((I, J)), f.el((r[0] + I, r[2] + J))))
    dark = v.array('dark', (R, Q))
    c = v.reals('c')
    hk = hy + [le(num(0, 'I'), I), lt(I, R), le(num(0, 'I'), J), lt(J, Q)]
    for tag, dk, d in (('image', dark, dark.el((I, J))), ('number', c, c)):
        for o in v.run(lambda: C(src, [('dark', dk)])[1], hy):
            x = f.el((I, J))
            v.prove(f'dark {tag}: difference where above', hk + o.pc, implies(le(d, x), eq(o.value.el((I, J)), x - d)))
            v.prove(f'dark {tag}: zero where below', hk + o.pc, implies(lt(x, d), eq(o.value.el((I, J)), num(0))))
        for o in v.run(lambda: C(src, [('add', dk)])[1], hy):
            v.prove(f'add {tag}', hk + o.pc, eq(o.value.el((I, J)), f.el((I, J)) + d))


@check.obligations('operations apply in list order, to the frame named by the frame list; fancy indices come last', [P + '.__getitem__', P + '._process_frame', P + '._get_index', P + '.__len__', P + '.addop'])
def _(v):
    C = v.lift(P)
    R, Q = v.dim('rows'), v.dim('cols')
    hy = [le(num(2, 'I'), R), le(num(2, 'I'), Q)]
    src = Source(v, 5, (R, Q))
    c, d = v.reals('c'), v.reals('d')
    r0, r1, c0, c1 = [v.dim(x) for x in ('r0', 'r1', 'c0', 'c1')]
    box = ((r0, r1), (c0, c1))
    hr = hy + [le(num(0, 'I'), r0), lt(r0, r1), le(r1, R), le(num(0, 'I'), c0), lt(c0, c1), le(c1, Q)]
    n, m = r1 - r0, c1 - c0
    at = {'flip': lambda a: (lambda i, j, n, m: a(m - 1 - i, j, m, n))}
    f = src.frame(3)
    z = lambda x: ite(lt(x, num(0)), num(0), x)
    cases = [
        ('rectangle, dark, flip, add', [('rectangle', box), ('dark', c), ('flip', 'ccw90'), ('add', d)], m, n,
         lambda i, j: z(f.el((r0 + j, c0 + (m - 1 - i))) - c) + d),
        ('add, dark, rectangle', [('add', d), ('dark', c), ('rectangle', box)], n, m,
         lambda i, j: z(f.el((r0 + i, c0 + j)) + d - c)),
        ('dark, add, rectangle', [('dark', c), ('add', d), ('rectangle', box)], n, m,
         lambda i, j: z(f.el((r0 + i, c0 + j)) - c) + d),
        ('rectangle, flip, flip', [('rectangle', box), ('flip', 't'), ('flip', 'h')], m, n,
         lambda i, j: f.el((r0 + j, c0 + (m - 1 - i)))),
        ('flip, rectangle', [('flip', 'r180'), ('rectangle', box)], n, m,
         lambda i, j: f.el((R - 1 - (r0 + i), Q - 1 - (c0 + j))))]
    for tag, ops, nn, mm, want in cases:
        for frames, key in ((None, 3), ([4, 3, 0], 1), ([3], 0), ((0, 1, 3), 2), ([1, 3], -1)):
            p = C(src, list(ops), **({} if frames is None else dict(frame_list=frames)))
            src.asked.clear()
            for o in v.run(lambda: p[key], hr):
                v.require(f'{tag} {frames}: the frame of the list is read', src.asked and all(k == 3 for k in src.asked), str(src.asked))
                h = hr + o.pc + [le(num(0, 'I'), I), lt(I, nn), le(num(0, 'I'), J), lt(J, mm)]
                v.prove(f'{tag} {frames}: pixel', h, eq(o.value.el((I, J)), want(I, J)))
            v.require(f'{tag} {frames}: length', len(p) == (5 if frames is None else len(frames)))
        p = C(src, list(ops), frame_list=[0, 3])
        for o in v.run(lambda: p[1, 0:1], hr):
            h = hr + o.pc + [le(num(0, 'I'), J), lt(J, mm)]
            v.prove(f'{tag}: row slice of the processed frame', h, eq(o.value.el((num(0, 'I'), J)), want(num(0, 'I'), J)))
        v.require(f'{tag}: operation list kept', len(p.oplist) == len(ops))


def want_image(img, ops):
    import scipy.ndimage
    a = img
    for k, d in ops:
        if k == 'flip':
            tr, at = FLIPS[d]
            n, m = a.shape[::-1] if tr else a.shape
            b = np.empty((n, m), a.dtype)
            for i in range(n):
                for j in range(m):
                    b[i, j] = a[at(i, j, n, m)]
        elif k == 'rectangle':
            b = np.array([[a[i, j] for j in range(*d[1])] for i in range(*d[0])], a.dtype)
        elif k == 'dark':
            b = np.where(a > d, a.astype(float) - np.asarray(d, float), 0)
        elif k == 'add':
            b = a.astype(float) + d
        elif k == 'add-row':
            b = np.concatenate([a[:d], np.zeros((1, a.shape[1])), a[d:]])
        elif k == 'add-column':
            b = np.concatenate([a[:, :d], np.zeros((a.shape[0], 1)), a[:, d:]], axis=1)
        elif k == 'gauss_laplace':
            b = scipy.ndimage.gaussian_laplace(a, d)
        a = b
    return a


def source(t, n, shape, dtype, meta=None):
    from hexrd.core import imageseries
    if np.dtype(dtype).kind == 'f':
        a = t.rng.normal(size=(n,) + shape).astype(dtype) * 100
    else:
        a = t.rng.integers(0, 200, (n,) + shape).astype(dtype)
    return a, imageseries.open(None, 'array', data=a.copy(), meta=meta or {})


def wrap(ims, how):
    """the same images behind another layer"""
    from hexrd.core import imageseries
    from hexrd.core.imageseries.process import ProcessedImageSeries
    if how == 1:
        return ProcessedImageSeries(ims, [('flip', None)])
    if how == 2:
        return imageseries.omega.OmegaImageSeries(ims)
    if how == 3:
        return imageseries.omega.OmegaImageSeries(ProcessedImageSeries(ims, []))
    return ims


@check.runtime('processed frames equal the operations applied in order to the source frame', [P], n=250)
def _(t):
    from hexrd.core import imageseries
    from hexrd.core.imageseries.process import ProcessedImageSeries
    for k in t.cases():
        n = int(t.rng.integers(1, 5))
        shape = tuple(int(x) for x in t.rng.integers(1, 8, 2))
        dtype = ['uint8', 'uint16', 'int32', 'uint32', 'float32', 'float64', 'int16'][k % 7]
        om = np.array([[i, i + 1.] for i in range(n)])
        raw, ims = source(t, n, shape, dtype, dict(omega=om.copy(), note='x'))
        ims = wrap(ims, k % 4)
        ops, cur = [], shape
        for q in range(int(t.rng.integers(0, 5))):
            op = ['flip', 'rectangle', 'dark', 'add', 'add-row', 'add-column', 'gauss_laplace', 'dark'][int(t.rng.integers(8))]
            if q == 0 and k % 3 == 0:
                op = 'rectangle'
            if op == 'flip':
                d = t.pr.choice(list(FLIPS))
                if FLIPS[d][0]:
                    cur = cur[::-1]
            elif op == 'rectangle':
                a0, b0 = int(t.rng.integers(cur[0])), int(t.rng.integers(cur[1]))
                d = ((a0, int(t.rng.integers(a0, cur[0])) + 1), (b0, int(t.rng.integers(b0, cur[1])) + 1))
                cur = (d[0][1] - d[0][0], d[1][1] - d[1][0])
            elif op == 'dark':
                isint = np.dtype(dtype).kind in 'ui' and not any(o[0] in ('add', 'gauss_laplace') for o in ops)
                d = t.rng.integers(0, 200, cur).astype(dtype) if isint and t.pr.random() < .7 else t.rng.normal(size=cur).astype('float32') * 50
            elif op == 'add':
                d = float(t.rng.integers(-20, 20)) if q % 2 else t.rng.integers(-9, 9, cur).astype(float)
            elif op == 'add-row':
                d = int(t.rng.integers(0, cur[0] + 1))
                cur = (cur[0] + 1, cur[1])
            elif op == 'add-column':
                d = int(t.rng.integers(0, cur[1] + 1))
                cur = (cur[0], cur[1] + 1)
            else:
                if np.dtype(dtype).kind != 'f':
                    continue
                d = 1.5
            ops.append((op, d))
        frames = None
        if k % 2:
            frames = [int(x) for x in t.rng.integers(0, n, int(t.rng.integers(1, 2 * n + 1)))]
            if k % 4 == 1:
                frames = np.array(frames)
        p = ProcessedImageSeries(ims, ops, **({} if frames is None else dict(frame_list=frames)))
        order = range(n) if frames is None else frames
        data = dict(shape=shape, dtype=dtype, ops=[(a, np.asarray(b) if not isinstance(b, (str, type(None), tuple)) else b) for a, b in ops], frames=list(order), wrap=k % 4)
        t.expect(len(p) == len(order), 'number of frames', **data)
        got = list(p)
        t.expect(len(got) == len(order), 'iteration yields every frame', **data)
        for q, src in enumerate(order):
            w = want_image(raw[src], ops)
            t.close(p[q], w, 'frame', rtol=1e-4, atol=1e-3, q=q, **data)
            t.close(got[q], w, 'iterated frame', rtol=1e-4, atol=1e-3, **data)
            t.close(p[np.int64(q)], w, 'numpy integer index', rtol=1e-4, atol=1e-3, **data)
            i, j = int(t.rng.integers(w.shape[0])), int(t.rng.integers(w.shape[1]))
            t.close(p[q, i], w[i], 'row of the frame', rtol=1e-4, atol=1e-3, **data)
            t.close(p[q, i:, :j + 1], w[i:, :j + 1], 'fancy index after processing', rtol=1e-4, atol=1e-3, **data)
            t.close(p.get_region(q, ((i, w.shape[0]), (0, j + 1))), w[i:, :j + 1], 'region of the processed frame', rtol=1e-4, atol=1e-3, **data)
        t.expect(tuple(p.shape) == w.shape and p.dtype == p[0].dtype, 'shape and type are those of the frames', **data)
        t.close(p.metadata['omega'], om[list(order)], 'omega follows the frame list', **data)
        p.metadata['note'] = 'changed'
        p.metadata['omega'][0] = -99
        t.expect(ims.metadata['note'] == 'x' and np.array_equal(ims.metadata['omega'], om), 'metadata of the source untouched', **data)
        for q in range(n):
            t.expect(np.array_equal(ims[q], raw[q]), 'source frames untouched', **data)


@check.runtime('sums and differences of integer images do not wrap around', [P + '._add', P + '._subtract_dark'], n=42)
def _(t):
    from hexrd.core import imageseries
    from hexrd.core.imageseries.process import ProcessedImageSeries
    for k in t.cases():
        dt = np.dtype(['uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32', 'uint64'][k % 7])
        i = np.iinfo(dt)
        top = min(i.max, 2 ** 53)
        a = np.array([[i.min, i.min + 1, i.min // 2], [top // 2, top - 1, top]]).astype(dt)
        ims = imageseries.open(None, 'array', data=a[None].copy(), meta={})
        big = [int(x) for x in (-3, 5, top // 2 + 1, top - 2, -(top // 2))]
        x = big[int(t.rng.integers(len(big)))]
        adds = dict(number=x, float=float(x))
        if i.min <= x <= i.max:
            adds['scalar of the type of the image'] = dt.type(x)
            adds['image of the type of the image'] = np.full(a.shape, x, dt)
        if dt.itemsize < 8:
            adds['signed image'] = np.full(a.shape, x, 'int64')
        for tag, d in adds.items():
            w = a.astype(float) + np.asarray(d, float)
            t.close(np.asarray(ProcessedImageSeries(ims, [('add', d)])[0], float), w, 'sum', rtol=1e-6, atol=1e-6 * top, dtype=str(dt), addend=tag, value=x)
        if dt.kind == 'u':
            d = t.rng.integers(0, top, a.shape, dtype='uint64', endpoint=True).astype(dt)
            w = np.where(a > d, a.astype(float) - d.astype(float), 0)
            t.close(np.asarray(ProcessedImageSeries(ims, [('dark', d)])[0], float), w, 'difference', rtol=1e-6, atol=1e-6 * top * (dt.itemsize == 8), dtype=str(dt), dark=d)
        t.expect(np.array_equal(ims[0], a), 'source frame untouched')
