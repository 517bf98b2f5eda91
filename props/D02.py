from .common import *
from .D01 import panel, xy_of, make, PD
import numpy as np

check = Check('D02', assumptions=['image values are reals; an image is a function of its pixel indices'])
D = 'hexrd.core.instrument.detector:Detector.'
DM = 'hexrd.core.instrument.detector:'
K = sym('k', 'I')


def el(a, c):
    return a.el((K, num(c, 'I')))


def inside(x, y, xl, yl):
    return and_(le(-xl, x), le(x, xl), le(-yl, y), le(y, yl))


@check.obligations('clipping: a point is on the panel exactly when it lies within the panel less its buffer', [D + 'clip_to_panel'])
def _(v):
    b = v.reals('b', (2,))
    n = v.dim('n')
    xy = v.array('xy', (n, 2))
    for tag, buf, use in (('no buffer', None, True), ('buffer', b, True), ('buffer as a pair', (b[0], b[1]), True), ('buffer ignored', b, False)):
        d, hy = panel(v, _panel_buffer=buf)
        hy = hy + [le(num(1, 'I'), n)]
        hk = hy + [le(num(0, 'I'), K), lt(K, n)]
        bx, by = (b[0], b[1]) if buf is not None and use else (num(0), num(0))
        w = inside(el(xy, 0), el(xy, 1), half() * d._cols * d._pixel_size_col - bx, half() * d._rows * d._pixel_size_row - by)
        for o in v.run(lambda: d.clip_to_panel(xy, buffer_edges=use), hy):
            res, on = o.value
            m = tm.tobool(L(on.el((K,))))
            v.prove(f'{tag}: only panel points', hk + o.pc, implies(m, w))
            v.prove(f'{tag}: every panel point', hk + o.pc, implies(w, m))
            v.prove(f'{tag}: one flag per point', hk + o.pc, eq(L(on.shape[0]), n))
    # the clipped coordinates are those of the flagged points, in order
    for m in (1, 2, 3):
        d, hy = panel(v, _panel_buffer=b)
        xy = v.reals('p', (m, 2))
        for o in v.run(lambda: [snp.asarray(x) for x in d.clip_to_panel(xy)], hy, max_paths=100):
            res, on = o.value
            h = hy + o.pc
            flags = [tm.tobool(L(on[i])) for i in range(m)]
            for pat in range(2 ** m):
                sel = [i for i in range(m) if pat >> i & 1]
                hp = h + [flags[i] if i in sel else not_(flags[i]) for i in range(m)]
                if len(sel) != res.shape[0]:
                    v.prove(f'{m} points, {sel}: count', hp, FALSE)
                    continue
                for r, i in enumerate(sel):
                    for c in range(2):
                        v.prove(f'{m} points, {sel}: row {r}{c}', hp, eq(L(res[r, c]), xy[i, c]))


@check.obligations('clipping with a pixel mask: a point is kept exactly when its pixel exists and is selected', [D + 'clip_to_panel', D + 'cartToPixel'])
def _(v):
    for rows, cols in ((2, 3),):
        mask = np.empty((rows, cols), object)
        for i in range(rows):
            for j in range(cols):
                mask[i, j] = sym(f'm_{i}_{j}', 'B')
        d, hy = panel(v, _panel_buffer=snp.ndarray.conc(mask, bool), _rows=rows, _cols=cols)
        d._rows, d._cols = rows, cols
        pr, pc = d._pixel_size_row, d._pixel_size_col
        xy = v.reals('p', (1, 2))
        for o in v.run(lambda: d.clip_to_panel(xy), hy, max_paths=300):
            on = tm.tobool(L(o.value[1][0]))
            fi, fj = num(tm.Fraction(rows, 2)) - xy[0, 1] / pr, xy[0, 0] / pc + num(tm.Fraction(cols, 2))
            off = or_(lt(fi, num(0)), le(num(rows), fi), lt(fj, num(0)), le(num(cols), fj))
            for i in range(rows):
                for j in range(cols):
                    here = [lt(num(i), fi), lt(fi, num(i + 1)), lt(num(j), fj), lt(fj, num(j + 1))]
                    h = hy + o.pc + here
                    v.prove(f'kept when selected {i}{j}', h, implies(mask[i, j], on))
                    v.prove(f'dropped when masked {i}{j}', h, implies(on, mask[i, j]))
            v.prove('dropped off the panel', hy + o.pc + [or_(lt(fi, num(0)), lt(num(rows), fi), lt(fj, num(0)), lt(num(cols), fj))], not_(on))


@check.obligations('bilinear weights: non-negative between pixel centres, sum to one, reproduce linear images; indices stay on the image', [
    D + '_generate_bilinear_interp_dict', DM + '_fix_indices', 'hexrd.core.gridutil:cellIndices', D + 'cartToPixel'])
def _(v):
    d, hy = panel(v)
    n = v.dim('n')
    hy = hy + [le(num(1, 'I'), n), le(num(2, 'I'), d._rows), le(num(2, 'I'), d._cols)]
    xy = v.array('xy', (n, 2))
    x, y = el(xy, 0), el(xy, 1)
    pr, pc, R, C = d._pixel_size_row, d._pixel_size_col, d._rows, d._cols
    hk = hy + [le(num(0, 'I'), K), lt(K, n)]
    fi, fj = R * half() - half() - y / pr, x / pc + C * half() - half()
    for o in v.run(lambda: d._generate_bilinear_interp_dict(xy), hy):
        g = {k: a.el((K,)) for k, a in o.value.items()}
        h = hk + o.pc
        w = [g['cc'], g['fc'], g['cf'], g['ff']]
        v.prove('weights sum to one', h, eq(sum_(w), num(1)))
        one = num(1, 'I')
        for ax, s in (('i', R), ('j', C)):
            for e in ('floor', 'ceil'):
                q = g[f'{ax}_{e}_img']
                v.prove(f'{ax} {e} on the image', h, and_(le(num(0, 'I'), q), le(q, s - one)))
        # away from the border (and the tolerance at the last centre): neighbours of the point
        tol = num(tm.Fraction(1, 10 ** 6))
        inn = [lt(num(0), fi), lt(num(0), fj), lt(fi * pr, (R - 1) * pr - tol), lt(fj * pc, (C - 1) * pc - tol)]
        fl = {'i': fi, 'j': fj}
        for ax in 'ij':
            v.prove(f'{ax} floor below', h + inn, and_(le(g[f'{ax}_floor_img'], fl[ax]), le(fl[ax], g[f'{ax}_floor_img'] + 1)))
            v.prove(f'{ax} ceil above', h + inn, eq(g[f'{ax}_ceil_img'], g[f'{ax}_floor_img'] + 1))
        # the weights are the products of the distances: marginals and vanishing determinant determine all four
        v.prove('row weight of the floor row', h + inn, eq(g['cc'] + g['fc'], g['i_floor_img'] + 1 - fi))
        v.prove('column weight of the floor column', h + inn, eq(g['cc'] + g['cf'], g['j_floor_img'] + 1 - fj))
        v.prove('product form', h, eq(g['cc'] * g['ff'], g['fc'] * g['cf']))


@check.obligations('bilinear value: weights meet their own pixels', [DM + '_interpolate_bilinear', DM + '_interpolate_bilinear_in_place'])
def _(v):
    f = v.lift(DM + '_interpolate_bilinear')
    img = v.reals('img', (2, 2))
    W = {k: v.reals(k, (1,)) for k in ('cc', 'fc', 'cf', 'ff')}
    for i0 in range(2):
        for j0 in range(2):
            for i1 in range(2):
                for j1 in range(2):
                    ix = dict(i_floor_img=i0, j_floor_img=j0, i_ceil_img=i1, j_ceil_img=j1)
                    for o in v.run(lambda: f(img, **W, **{k: snp.array([x]) for k, x in ix.items()}), []):
                        w = W['cc'][0] * img[i0, j0] + W['fc'][0] * img[i0, j1] + W['cf'][0] * img[i1, j0] + W['ff'][0] * img[i1, j1]
                        v.prove(f'value {i0}{j0}{i1}{j1}', o.pc, eq(o.value[0], w))


def oracle(img, d, xy, nearest):
    fi = d.rows / 2 - .5 - xy[:, 1] / d.pixel_size_row
    fj = xy[:, 0] / d.pixel_size_col + d.cols / 2 - .5
    fi, fj = np.clip(fi, 0, d.rows - 1), np.clip(fj, 0, d.cols - 1)
    if nearest:
        return None
    i, j = np.minimum(np.floor(fi).astype(int), d.rows - 2), np.minimum(np.floor(fj).astype(int), d.cols - 2)
    a, b = fi - i, fj - j
    img = img.astype(float)
    return img[i, j] * (1 - a) * (1 - b) + img[i, j + 1] * (1 - a) * b + img[i + 1, j] * a * (1 - b) + img[i + 1, j + 1] * a * b


@check.runtime('interpolation on real images of every type', [
    D + 'interpolate_nearest', D + 'interpolate_bilinear', D + 'clip_to_panel', DM + '_fix_indices', DM + '_interpolate_bilinear'], n=120)
def _(t):
    rng = t.rng
    for k in t.cases():
        buf = [None, rng.uniform(0, 1, 2), (.5, 1.)][int(rng.integers(0, 3))]
        d = make(rng, rows=int(rng.integers(2, 12)), cols=int(rng.integers(2, 12)), panel_buffer=buf)
        if rng.random() < .3:
            d.panel_buffer = rng.random((d.rows, d.cols)) < .7
        n = int(rng.integers(1, 20))
        hw, hh = d.col_dim / 2, d.row_dim / 2
        xy = np.c_[rng.uniform(-1.2 * hw, 1.2 * hw, n), rng.uniform(-1.2 * hh, 1.2 * hh, n)]
        dt = [np.float64, np.float32, np.uint16, np.int32, np.uint8][int(rng.integers(0, 5))]
        img = (rng.random((d.rows, d.cols)) * 200).astype(dt)
        I = dict(xy=xy, shape=d.shape, pitch=(d.pixel_size_row, d.pixel_size_col), buf=d.panel_buffer, dtype=str(dt))
        fi, fj = d.rows / 2 - xy[:, 1] / d.pixel_size_row, xy[:, 0] / d.pixel_size_col + d.cols / 2
        pi, pj = np.floor(fi).astype(int), np.floor(fj).astype(int)
        on = (np.abs(xy[:, 0]) <= hw) & (np.abs(xy[:, 1]) <= hh)
        if np.ndim(d.panel_buffer) == 2:
            on[on] = d.panel_buffer[pi[on], pj[on]]
        elif d.panel_buffer is not None:
            on = (np.abs(xy[:, 0]) <= hw - d.panel_buffer[0]) & (np.abs(xy[:, 1]) <= hh - d.panel_buffer[1])
        c, m = d.clip_to_panel(xy)
        t.expect((m == on).all(), 'on-panel flags', got=m, want=on, **I)
        t.close(c, xy[on], 'clipped points', **I)
        for pad in (True, False):
            fill = np.nan if pad else 0
            got = d.interpolate_bilinear(xy, img, pad_with_nans=pad)
            want = np.full(n, fill, float)
            want[on] = oracle(img, d, xy[on], False)
            t.close(got, want, 'bilinear', rtol=1e-5, atol=1e-4, **I)
            got = d.interpolate_nearest(xy, img, pad_with_nans=pad)
            want = np.full(n, fill, float)
            want[on] = img[pi[on], pj[on]]
            edge = (np.abs(fi - np.round(fi)) < 1e-6) | (np.abs(fj - np.round(fj)) < 1e-6)
            t.close(got[~edge], want[~edge], 'nearest', rtol=1e-6, **I)
        # a constant image stays constant, a linear one is reproduced between pixel centres
        y, x = d.pixel_coords
        lin = 3 * x - 2 * y + 1
        got = d.interpolate_bilinear(xy, lin)
        inn = on & (np.abs(xy[:, 0]) < hw - d.pixel_size_col / 2 - 1e-6) & (np.abs(xy[:, 1]) < hh - d.pixel_size_row / 2 - 1e-6)
        t.close(got[inn], (3 * xy[:, 0] - 2 * xy[:, 1] + 1)[inn], 'linear images are reproduced', atol=1e-6 * (hw + hh), **I)
