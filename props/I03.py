from .common import *
import os
import tempfile
import numpy as np

check = Check('I03', assumptions=[
    'NumPy npz, h5py, fabio and yaml store and return what they are given; scipy.sparse assembles the stored triples',
    'the pixel extraction loop is proved for every image content at sizes up to 2 x 3 pixels, the file lookup for up to 4 files with any frame counts'])
S = 'hexrd.core.imageseries.save:'
F = 'hexrd.core.imageseries.load.framecache:FrameCacheImageSeriesAdapter'
IF = 'hexrd.core.imageseries.load.imagefiles:'
RAW = 'hexrd.core.imageseries.load.rawimage:RawImageSeriesAdapter'
H5 = 'hexrd.core.imageseries.load.hdf5:HDF5ImageSeriesAdapter'
EX = 'hexrd.core.matrixutil:extract_ijv'


@check.obligations('pixel extraction lists exactly the pixels above the threshold, in row order, with their values', [EX])
def _(v):
    f = v.lift(EX)
    thr = v.reals('thr')
    for R, C in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3)):
        im = v.reals('im', (R, C))
        cells = [(i, j) for i in range(R) for j in range(C)]

        def go():
            o = [snp.zeros(R * C, dtype=int), snp.zeros(R * C, dtype=int), snp.zeros(R * C)]
            return f(im, thr, *o), o
        for o in v.run(go, max_paths=200):
            n, (oi, oj, ov) = o.value
            n = int(n if isinstance(n, int) else n.args[0])
            above = []
            for c in cells:
                from vc import smt
                # each path fixes the set of pixels above the threshold
                above.append(smt.check(o.pc + [not_(lt(thr, im[c]))], 2000) == 'unsat')
                v.prove(f'{R}x{C}: pixel {c} classified on the path', o.pc, lt(thr, im[c]) if above[-1] else le(im[c], thr))
            sel = [c for c, a in zip(cells, above) if a]
            v.require(f'{R}x{C} {sel}: count', n == len(sel), str(n))
            for k, (i, j) in enumerate(sel[:n]):
                v.prove(f'{R}x{C} {sel}: entry {k}', o.pc, and_(eq(L(oi[k]), num(i, 'I')), eq(L(oj[k]), num(j, 'I')), eq(L(ov[k]), im[i, j])))


@check.obligations('image files: frame k is the frame of the file that holds it, after its empty frames; frames are limited as asked', [
    IF + 'ImageFilesImageSeriesAdapter._file_and_frame', IF + 'ImageFilesImageSeriesAdapter.__len__', IF + 'FileInfo.nframes'])
def _(v):
    C, I = v.lift(IF + 'ImageFilesImageSeriesAdapter'), v.lift(IF + 'FileInfo')
    for nf in (1, 2, 3, 4):
        tot, e = v.ints('tot'), v.ints('e')
        n = v.ints('n', (nf,))
        mx = v.ints('mx')
        s = object.__new__(C)
        s._infolist = []
        hy = [le(num(0, 'I'), tot), le(num(0, 'I'), e), le(num(1, 'I'), mx)]
        for k in range(nf):
            i = object.__new__(I)
            i._empty, i._imgframes, i._maxframes, i.filename = e, n[k], mx, k
            s._infolist.append(i)
            hy += [lt(e, n[k])]
        use = [ite(le(mx, n[k] - e), mx, n[k] - e) for k in range(nf)]
        for k in range(nf):
            for o in v.run(lambda: s._infolist[k].nframes, hy):
                v.prove(f'{nf} files: frames of file {k}', hy + o.pc, eq(L(o.value), use[k]))
        N = sum_(use)
        s._nframes, s._maxframes_tot = N, tot
        length = ite(and_(lt(num(0, 'I'), tot), lt(tot, N)), tot, N)
        for o in v.run(lambda: C.__len__(s), hy):
            v.prove(f'{nf} files: number of frames', hy + o.pc, eq(L(o.value), length))
        key = v.ints('key')
        # the pieces sum of the frames before file k
        for o in v.run(lambda: s._file_and_frame(key), hy, max_paths=600, allow_exc=True):
            h = hy + o.pc
            kk = ite(le(num(0, 'I'), key), key, key + length)
            valid = and_(le(-length, key), lt(key, length))
            if o.exc is not None:
                v.require(f'{nf} files: refusal is a lookup error', isinstance(o.exc, LookupError), repr(o.exc))
                v.prove(f'{nf} files: refused only outside the series', h, not_(valid))
                continue
            v.prove(f'{nf} files: accepted only inside the series', h, valid)
            fn, fr = o.value
            fn = int(fn if isinstance(fn, int) else L(fn).args[0])
            before = sum_(use[:fn]) if fn else num(0, 'I')
            v.prove(f'{nf} files: frame of file {fn}', h, and_(eq(L(fr) - e + before, kk), le(e, L(fr)), lt(L(fr) - e, use[fn])))


@check.obligations('raw images: the type code has the stated kind, size, sign and byte order; a frame is read at its offset', [RAW + '.typechars', RAW + '._get_dtype'])
def _(v):
    from hexrd.core.imageseries.load.rawimage import RawImageSeriesAdapter as R
    for little in (True, False):
        for b in (1, 2, 4, 8):
            for signed in (True, False):
                d = np.dtype(R.typechars('i', b, signed, little))
                v.ground(f'int {b} {signed} {little}', d == np.dtype(('<' if little else '>') + ('i' if signed else 'u') + str(b)), str(d), got=str(d))
        for t, w in (('f', 'f4'), ('d', 'f8'), ('b', '?')):
            d = np.dtype(R.typechars(t, little=little))
            v.ground(f'{t} {little}', d == np.dtype(('<' if little else '>') + w if t != 'b' else '?'), str(d), got=str(d))
    s = object.__new__(R)
    for e, c in (('little', '<'), ('big', '>')):
        d = s._get_dtype(dict(type='i', bytes=2, signed=False, endian=e))
        v.ground(f'endian {e}', d == np.dtype(c + 'u2'), str(d), got=str(d))


def images(t, k, n, shape):
    dtype = ['uint8', 'uint16', 'int32', 'uint32', 'float32', 'float64'][k % 6]
    a = t.rng.integers(0, 120, (n,) + shape)
    a = a * (t.rng.uniform(size=a.shape) < [0.3, 1.0, 0.05][k % 3])
    if np.dtype(dtype).kind == 'f':
        a = a * 1.37 - 3
    return a.astype(dtype)


def same(t, ims, want, meta, data, flat=False):
    n, shape = want.shape[0], want.shape[1:]
    t.expect(len(ims) == n and tuple(ims.shape) == shape and ims.dtype == want.dtype, 'length, shape and type', got=[len(ims), ims.shape, str(ims.dtype)], **data)
    t.expect(isinstance(ims.shape == shape, bool) and isinstance(ims.shape, tuple), 'shape is a tuple', got=repr(ims.shape), **data)
    it = list(ims)
    t.expect(len(it) == n, 'iteration length', **data)
    for q in range(n):
        for how, g in (('frame', ims[q]), ('iterated frame', it[q]), ('numpy index', ims[np.int64(q)]), ('negative index', ims[q if flat else q - n])):
            t.expect(g.shape == shape and g.dtype == want.dtype and np.array_equal(g, want[q]), how, q=q, got=g, want=want[q], **data)
        r0, c0 = int(t.rng.integers(shape[0])), int(t.rng.integers(shape[1]))
        r1, c1 = int(t.rng.integers(r0, shape[0])) + 1, int(t.rng.integers(c0, shape[1])) + 1
        # (regions of a 2-d dataset are refused, as the repository's tests require)
        g = want[q][r0:r1, c0:c1] if flat else ims.get_region(q, ((r0, r1), (c0, c1)))
        t.expect(np.array_equal(g, want[q][r0:r1, c0:c1]), 'region', q=q, region=[r0, r1, c0, c1], got=g, want=want[q][r0:r1, c0:c1], **data)
        ii, jj = np.mgrid[r0:r1, c0:c1]
        g = ims[q, ii, jj]
        t.expect(np.array_equal(np.asarray(g), want[q][ii, jj]), 'pixel list', q=q, **data)
        g = ims[q, r0:r1, c0:c1]
        t.expect(np.array_equal(np.asarray(g), want[q][r0:r1, c0:c1]), 'slices', q=q, **data)
    for key, val in meta.items():
        t.expect(key in ims.metadata, f'metadata {key} present', got=list(ims.metadata), **data)
        g = ims.metadata[key]
        if isinstance(val, str):
            g = np.asarray(g).item() if not isinstance(g, (str, bytes)) else g
            g = g.decode() if isinstance(g, bytes) else g
            t.expect(g == val, f'metadata {key}', got=repr(g), **data)
        else:
            t.expect(np.array_equal(np.asarray(g), np.asarray(val)), f'metadata {key}', got=repr(g), **data)


@check.runtime('saving and loading returns the frames (thresholded for frame caches), their type, order and metadata', [S + 'WriteFrameCache', S + 'WriteH5', F, H5, 'hexrd.core.utils.hdf5:unwrap_dict_to_h5', 'hexrd.core.utils.hdf5:unwrap_h5_to_dict'], n=60, thorough=6)
def _(t):
    import h5py
    import warnings
    from hexrd.core import imageseries
    from hexrd.core.imageseries.process import ProcessedImageSeries
    warnings.simplefilter('ignore')
    with tempfile.TemporaryDirectory() as td:
        for k in t.cases():
            n = int(t.rng.integers(1, 9))
            shape = tuple(int(x) for x in t.rng.integers(1, 7, 2))
            a = images(t, k, n, shape)
            if k % 7 == 3:
                a[:] = 0
            meta = dict(omega=np.array([[i, i + 1.] for i in range(n)]), panel='ge2', note=np.array(['a', 'bc']), gain=2.5, count=3)
            ims = imageseries.open(None, 'array', data=a.copy(), meta=dict(meta))
            if k % 4 == 1:
                ims, a = ProcessedImageSeries(ims, [('flip', 't')]), np.swapaxes(a, 1, 2)
            thr = float(t.rng.choice([0, 1, 20, 60, 1000])) if np.dtype(a.dtype).kind != 'f' else float(t.rng.choice([-10, 0, 25.5]))
            want = np.where(a > thr, a, 0).astype(a.dtype)
            # rewriting the same file must not serve old frames
            for style, ext in (('npz', 'npz'), ('fch5', 'fch5')):
                p = os.path.join(td, f'c{k % 3}.{ext}')
                w = [1, 3, 8][k % 3]
                imageseries.write(ims, p, 'frame-cache', threshold=thr, style=style, max_workers=w)
                back = imageseries.open(p, 'frame-cache', style=style)
                m2 = dict(meta)
                data = dict(format=style, threshold=thr, n=n, shape=shape, dtype=str(a.dtype), workers=w)
                if style == 'fch5':
                    m2.pop('note')
                same(t, back, want, m2, data)
            p = os.path.join(td, 'group.h5')
            with h5py.File(p, 'w') as h:
                imageseries.write(ims, h, 'frame-cache', threshold=thr, style='fch5', path='a/b')
                same(t, imageseries.open(h, 'frame-cache', style='fch5', path='a/b'), want, {'omega': meta['omega']}, dict(format='fch5 group'))
            p = os.path.join(td, f'h{k % 3}.h5')
            imageseries.write(ims, p, 'hdf5', path='x/imgs', gzip=int(k % 3), chunk_rows=int(t.rng.integers(0, 9)), shuffle=bool(k % 2))
            back = imageseries.open(p, 'hdf5', path='x/imgs')
            m2 = dict(meta)
            m2.pop('note')
            same(t, back, np.asarray(a), m2, dict(format='hdf5', n=n, shape=shape, dtype=str(a.dtype)))
            t.expect([x.decode() for x in back.metadata['note']] == ['a', 'bc'], 'text metadata', got=repr(back.metadata['note']))
            del back
            # a single image stored as a 2-d dataset
            p = os.path.join(td, f's{k}.h5')
            with h5py.File(p, 'w') as h:
                h['im/images'] = a[0]
            back = imageseries.open(p, 'hdf5', path='im')
            same(t, back, a[:1], {}, dict(format='hdf5 2-d', shape=shape), flat=True)
            del back
            os.unlink(p)


@check.runtime('image files and raw images give the stored frames without the empty ones', [IF + 'ImageFilesImageSeriesAdapter', RAW, 'hexrd.core.imageseries.load.array:ArrayImageSeriesAdapter', 'hexrd.core.imageseries.load.function:FunctionImageSeriesAdapter'], n=30, thorough=6)
def _(t):
    import fabio
    import yaml
    from hexrd.core import imageseries
    with tempfile.TemporaryDirectory() as td:
        for k in t.cases():
            d = os.path.join(td, f'd{k}')
            os.mkdir(d)
            shape = tuple(int(x) for x in t.rng.integers(2, 7, 2))
            per = int(t.rng.integers(1, 4))
            nfile = int(t.rng.integers(1, 4))
            empty = int(t.rng.integers(0, per))
            mf, mt = int(t.rng.choice([0, 0, 1, 2])), int(t.rng.choice([0, 0, 2, 5]))
            a = t.rng.integers(0, 4000, (nfile, per) + shape).astype('uint16')
            multi = per > 1
            for q in range(nfile):
                p = os.path.join(d, f'f{q:03d}.' + ('tif'))
                if multi:
                    import tifffile
                    tifffile.imwrite(p, a[q]) if False else _tiff(p, a[q])
                else:
                    fabio.tifimage.TifImage(data=a[q, 0]).write(p)
            text = yaml.safe_dump({'image-files': {'directory': d, 'files': '*.tif'}, 'options': {'empty-frames': empty, 'max-file-frames': mf, 'max-total-frames': mt}, 'meta': {'panel': 'x'}})
            fn = os.path.join(d, 'i.yml')
            with open(fn, 'w') as f:
                f.write(text)
            frames = []
            for q in range(nfile):
                fr = list(a[q][empty:])
                frames += fr[:mf] if mf else fr
            if mt:
                frames = frames[:mt]
            for src in (fn, text):
                ims = imageseries.open(src, 'image-files')
                data = dict(per=per, files=nfile, empty=empty, max_file=mf, max_total=mt, shape=shape)
                t.expect(len(ims) == len(frames), 'number of frames', got=len(ims), want=len(frames), **data)
                for q, w in enumerate(frames):
                    t.expect(np.array_equal(ims[q], w), 'frame of the files', q=q, got=ims[q], want=w, **data)
                for g, w in zip(list(ims), frames):
                    t.expect(np.array_equal(g, w), 'iterated frame of the files', **data)
                t.expect(ims.metadata == {'panel': 'x'} and tuple(ims.shape) == shape, 'metadata and shape', **data)
            # raw
            dt = np.dtype(t.pr.choice(['<u2', '>u2', '<i4', '>f4', '<f8', '>u1', '<i8']))
            b = t.rng.integers(0, 200, (nfile,) + shape).astype(dt)
            skip = int(t.rng.integers(0, b[0].nbytes))
            p = os.path.join(d, 'r.raw')
            with open(p, 'wb') as f:
                f.write(b'\7' * skip + b.tobytes())
            kind = {'u': 'i', 'i': 'i', 'f': 'f' if dt.itemsize == 4 else 'd'}[dt.kind]
            with open(p + '.yml', 'w') as f:
                yaml.safe_dump(dict(filename=p, shape=f'{shape[0]} {shape[1]}', skip=skip, scalar=dict(type=kind, bytes=dt.itemsize, signed=dt.kind == 'i', endian='big' if dt.str[0] == '>' else 'little')), f)
            ims = imageseries.open(p + '.yml', 'raw-image')
            t.expect(len(ims) == nfile and tuple(ims.shape) == shape, 'raw length and shape', dtype=dt.str, skip=skip, shape=shape)
            for q in list(range(nfile)) + [0]:
                t.expect(np.array_equal(ims[q], b[q]) and np.array_equal(ims[np.int64(q)], b[q]), 'raw frame', q=q, dtype=dt.str, skip=skip, shape=shape)
            ims._adapter.f.close()
            f = imageseries.open(None, 'function', func=lambda q: b[q].copy(), num_frames=nfile, meta={'m': 1})
            g = imageseries.open(None, 'array', data=b, meta={'m': 1})
            same(t, g, b, {'m': 1}, dict(format='array'))
            for q in range(nfile):
                t.expect(np.array_equal(f[q], b[q]), 'function frame', q=q)
            g[0][:] = 77
            t.expect(np.array_equal(g[0], b[0]), 'array frames are copies')


def _tiff(path, stack):
    """little multi-page tiff writer"""
    import struct
    n, R, C = stack.shape
    out = bytearray(struct.pack('<2sHI', b'II', 42, 8))
    for q in range(n):
        img = stack[q].astype('<u2').tobytes()
        ifd = 8 if q == 0 else len(out)
        ents = [(256, 3, 1, C), (257, 3, 1, R), (258, 3, 1, 16), (259, 3, 1, 1), (262, 3, 1, 1), (273, 4, 1, None), (277, 3, 1, 1), (278, 3, 1, R), (279, 4, 1, len(img)), (339, 3, 1, 1)]
        size = 2 + 12 * len(ents) + 4
        data = len(out) + size
        nxt = 0 if q == n - 1 else data + len(img) + (len(img) & 1)
        out += struct.pack('<H', len(ents))
        for tag, ty, cnt, val in ents:
            val = data if val is None else val
            out += struct.pack('<HHI', tag, ty, cnt) + (struct.pack('<HH', val, 0) if ty == 3 else struct.pack('<I', val))
        out += struct.pack('<I', nxt) + img + (b'\0' if len(img) & 1 else b'')
    with open(path, 'wb') as f:
        f.write(bytes(out))
