from .common import *
from .geo import *
from .D01 import make
from .G04 import rand_cyl, cyl_point
import numpy as np

check = Check('P01', assumptions=[
    'interpolation weights and projections on a panel enter through their contracts (D02, D01, G04); arithmetic on reals',
    'sums over panels are proved for two panels and three polar pixels; the loops treat every panel and pixel alike'])
M = 'hexrd.core.projections.polar:'
PV = M + 'PolarView'
Z = 'hexrd.hedm.xrdutil.utils:zproject_sph_angles'


def view(v, **kw):
    C = v.lift(PV)
    o = object.__new__(C)
    a, b, c, d = v.reals('t0'), v.reals('t1'), v.reals('e0'), v.reals('e1')
    pt, pe = v.reals('pt'), v.reals('pe')
    o._tth_min, o._tth_max, o._eta_min, o._eta_max, o._tth_pixel_size, o._eta_pixel_size = a, b, c, d, pt, pe
    o._cache_coordinate_map = False
    o.__dict__.update(kw)
    return o, [lt(num(0), pt), lt(num(0), pe), lt(a, b), lt(c, d)]


@check.obligations('pixel centres: regular in two-theta and eta, half a pixel inside the limits', [PV + '.angular_grid', PV + '.extent', PV + '.ntth', PV + '.neta', PV + '.tth_to_pixel', PV + '.tth_range', PV + '.eta_range', PV + '.shape'])
def _(v):
    o, hy = view(v)
    rad = tm.PI / 180
    for name, lo, hi, px in (('ntth', o._tth_min, o._tth_max, o._tth_pixel_size), ('neta', o._eta_min, o._eta_max, o._eta_pixel_size)):
        for r in v.run(lambda: getattr(o, name), hy):
            n = L(r.value)
            dev = n - (hi - lo) / (px * rad)
            v.prove(f'{name}: whole number of pixels nearest to the range', hy + r.pc, and_(le(dev, half()), le(-dev, half())))
    n, m = v.dim('n'), v.dim('m')
    P = type(o)
    P.ntth, P.neta = property(lambda s: n), property(lambda s: m)
    i, j = sym('i', 'I'), sym('j', 'I')
    hy = hy + [le(num(1, 'I'), n), le(num(1, 'I'), m)]
    hk = hy + [le(num(0, 'I'), i), lt(i, m), le(num(0, 'I'), j), lt(j, n)]
    for r in v.run(lambda: o.angular_grid, hy):
        e, t = r.value
        v.prove('two-theta of pixel', hk + r.pc, eq(t.el((i, j)), o._tth_min + (tm.toreal(j) + half()) * o._tth_pixel_size * rad))
        v.prove('eta of pixel', hk + r.pc, eq(e.el((i, j)), o._eta_min + (tm.toreal(i) + half()) * o._eta_pixel_size * rad))
        for a, d, w in ((e, 0, m), (e, 1, n), (t, 0, m), (t, 1, n)):
            v.prove(f'grid shape {d}', hy + r.pc, eq(L(a.shape[d]), w))
        v.prove('tth_to_pixel: pixel centres at half integers', hk + r.pc, eq(L(o.tth_to_pixel(t.el((i, j)))), tm.toreal(j) + half()))
    v.require('shape', o.shape == (m, n) or (o.shape[0] is m and o.shape[1] is n))


@check.obligations('the polar image is the sum over the panels of the interpolated values; masked where no panel contributes', [PV + '._warp_image_from_coordinate_map', 'hexrd.core.instrument.detector:_interpolate_bilinear_in_place'])
def _(v):
    o, hy = view(v)
    P = type(o)
    P.shape = property(lambda s: (1, 3))
    imgs = {k: v.reals('img' + k, (2, 2)) for k in 'ab'}
    cmap, want, near = {}, [num(0)] * 3, {}
    idx = {'a': [0, 2], 'b': [1, 2]}
    for k in 'ab':
        w = {c: v.reals(c + k, (2,)) for c in ('cc', 'fc', 'cf', 'ff')}
        ij = {'i_floor_img': snp.array([0, 1]), 'j_floor_img': snp.array([1, 0]), 'i_ceil_img': snp.array([1, 1]), 'j_ceil_img': snp.array([1, 0])}
        fi, fj, ci, cj = [0, 1], [1, 0], [1, 1], [1, 0]
        cmap[k] = dict(xypts=v.reals('xy' + k, (3, 2)), on_panel_idx=snp.array(idx[k]), bilinear_interp_dict={**w, **ij})
        near[k] = v.reals('near' + k, (3,))
        for q, p in enumerate(idx[k]):
            g = imgs[k]
            want[p] = want[p] + w['cc'][q] * g[fi[q], fj[q]] + w['fc'][q] * g[fi[q], cj[q]] + w['cf'][q] * g[ci[q], fj[q]] + w['ff'][q] * g[ci[q], cj[q]]

    class Panel:
        def __init__(s, k):
            s.k = k

        def interpolate_nearest(s, xy, img, pad_with_nans=True):
            assert xy is cmap[s.k]['xypts'] and img is imgs[s.k] and pad_with_nans is False
            return near[s.k]
    P.detectors = property(lambda s: {k: Panel(k) for k in 'ab'})
    mask = np.array([[False, True, False]])
    grab = []
    f = v.lift(PV + '._warp_image_from_coordinate_map') if False else None
    for interp in (True, False):
        for pad in (False, True):
            for r in v.run(lambda: P._warp_image_from_coordinate_map(o, imgs, cmap, snp.array([[False, True, False]]), pad_with_nans=pad, do_interpolation=interp), hy):
                val = r.value
                dat = getattr(val, 'data', val)
                for p in range(3):
                    w = want[p] if interp else near['a'][p] + near['b'][p]
                    x = dat[0, p]
                    if p == 1 and pad:
                        v.require(f'padded {interp} {p}', tm.isnan(L(x)) is TRUE)
                    else:
                        v.prove(f'sum interp={interp} pad={pad} {p}', hy + r.pc, eq(L(x), w))


class Inst:
    def __init__(s, d, tvec, chi):
        s.detectors, s.tvec, s.chi = d, tvec, chi


def instrument(rng, n):
    out = {}
    bv = None
    for i in range(n):
        d = rand_cyl(rng) if rng.integers(0, 3) == 0 else make(rng, small=True)
        if bv is None:
            bv = d.bvec, d.evec
        d.bvec, d.evec = bv
        out[f'p{i}'] = d
    return Inst(out, rng.normal(size=3) * rng.choice([0, 2.]), float(rng.normal() * .3 * rng.integers(0, 2)))


def expected_xy(d, tth, eta, org):
    """ray tracing: where the ray (tth, eta) leaving org meets the panel, or nan"""
    RB = beam_frame(d.bvec, d.evec)
    u = RB @ np.array([np.sin(tth) * np.cos(eta), np.sin(tth) * np.sin(eta), -np.cos(tth)])
    R = nrot(d.tilt)
    return u, R


@check.runtime('every polar pixel takes the panel value on its ray; mask, cache and sums over panels', [
    PV + '._generate_coordinate_mapping', PV + '._generate_nan_mask', PV + '.warp_image', PV + '._args_project_on_detector', PV + '.__init__',
    'hexrd.core.utils.panel_buffer:panel_buffer_as_2d_array'], n=40)
def _(t):
    from hexrd.core.projections.polar import PolarView
    rng = t.rng
    for k in t.cases():
        ins = instrument(rng, int(rng.integers(1, 4)))
        dets = list(ins.detectors.values())
        if k % 3 == 0:
            for d in dets:
                d.panel_buffer = [.4 * d.pixel_size_col, .4 * d.pixel_size_row]
        elif k % 3 == 1:
            for d in dets:
                d.panel_buffer = rng.random(d.shape) > .2
        lo = rng.uniform(1, 10)
        hi = lo + rng.uniform(5, 60)
        e0 = rng.uniform(-180, 180)
        e1 = e0 + rng.uniform(30, 359)
        px = ((hi - lo) / rng.integers(4, 12), (e1 - e0) / rng.integers(4, 12))
        I = dict(tth=(lo, hi), eta=(e0, e1), px=px, tvec=ins.tvec, chi=ins.chi, panels=[(d.detector_type, d.tvec, d.tilt, d.shape, d.bvec, d.evec) for d in dets])
        pv = PolarView((lo, hi), ins, eta_min=e0, eta_max=e1, pixel_size=px)
        mp = pv._generate_coordinate_mapping()
        E, T_ = pv.angular_grid
        t.expect(pv.shape == E.shape, 'shape of the grid', **I)
        ext = pv.extent
        t.close([ext[0], ext[3]], np.radians([lo, e0]), 'lower limits of the extent', rtol=1e-9, atol=1e-9, **I)
        t.close([ext[1] - ext[0], ext[2] - ext[3]], np.radians([px[0] * pv.ntth, px[1] * pv.neta]), 'extent', rtol=1e-9, **I)
        imgs = {n: rng.random(d.shape) * 100 for n, d in ins.detectors.items()}
        total, seen = np.zeros(E.size), np.zeros(E.size, bool)
        for n, d in ins.detectors.items():
            xy = mp[n]['xypts']
            cyl = d.detector_type == 'cylindrical'
            ok = ~np.isnan(xy[:, 0])
            p = cyl_point(d, xy) if cyl else d.tvec + xy @ nrot(d.tilt)[:, :2].T
            RB = beam_frame(d.bvec, d.evec)
            tt, ee = T_.ravel(), E.ravel()
            u = np.stack([np.sin(tt) * np.cos(ee), np.sin(tt) * np.sin(ee), -np.cos(tt)], 1) @ RB.T
            w = (p - ins.tvec)[ok]
            w = w / np.linalg.norm(w, axis=1)[:, None]
            t.close(w, u[ok], 'the sampled point lies on the ray of the polar pixel', rtol=0, atol=1e-7, panel=n, **I)
            if not cyl:
                N = nrot(d.tilt)[:, 2]
                away = (u @ N < -1e-3) & ((d.tvec - ins.tvec) @ N < 0)
                t.expect(ok[away].all(), 'rays that meet the panel plane are found', panel=n, **I)
            on = np.zeros(len(xy), bool)
            on[mp[n]['on_panel_idx']] = True
            _, inside = d.clip_to_panel(np.where(np.isnan(xy), 1e9, xy))
            t.expect((on == inside).all(), 'kept exactly when on the panel', panel=n, **I)
            val = d.interpolate_bilinear(np.where(np.isnan(xy), 1e9, xy), imgs[n], pad_with_nans=False)
            total += val
            seen |= on
        got = pv.warp_image(imgs)
        t.close(np.asarray(got.data).ravel(), total, 'sum over the panels', rtol=1e-9, atol=1e-9, **I)
        m = np.ma.getmaskarray(got).ravel()
        t.expect(m[~seen].all(), 'masked where no panel is hit', **I)
        if k % 3 == 2:
            t.expect((m == ~seen).all(), 'masked only where no panel is hit', **I)
        pad = pv.warp_image(imgs, pad_with_nans=True)
        t.expect((np.isnan(np.asarray(pad.data)).ravel() == m).all(), 'padded exactly where masked', **I)
        c = PolarView((lo, hi), ins, eta_min=e0, eta_max=e1, pixel_size=px, cache_coordinate_map=True)
        for _ in range(2):
            g2 = c.warp_image(imgs)
            t.close(np.asarray(g2.data), np.asarray(got.data), 'cached map gives the same image', rtol=0, atol=0, **I)
            t.expect((np.ma.getmaskarray(g2).ravel() == m).all(), 'cached mask', **I)
        near = sum(d.interpolate_nearest(np.where(np.isnan(mp[n]['xypts']), 1e9, mp[n]['xypts']), imgs[n], pad_with_nans=False) for n, d in ins.detectors.items())
        t.close(np.asarray(pv.warp_image(imgs, do_interpolation=False).data).ravel(), near, 'nearest', rtol=0, atol=0, **I)


@check.runtime('stereographic and equal-area projections of directions', [Z], n=60)
def _(t):
    from hexrd.hedm.xrdutil.utils import zproject_sph_angles as f
    rng = t.rng
    for k in t.cases():
        n = int(rng.integers(1, 7))
        g = rng.normal(size=(n, 3))
        g /= np.linalg.norm(g, axis=1)[:, None]
        keep = g.copy()
        inv = bool(k % 2)
        w = g * [1, 1, -1 if inv else 1]
        for meth in ('stereographic', 'equal-area'):
            got = f(g, method=meth, source='g', invert_z=inv)
            t.expect((g == keep).all(), 'the caller keeps its vectors', g=keep, inv=inv)
            g = keep.copy()
            if meth == 'stereographic':
                want = w[:, :2] / (1 - w[:, 2:])
            else:
                r = np.linalg.norm(w + [0, 0, 1], axis=1)
                want = w[:, :2] / np.linalg.norm(w[:, :2], axis=1)[:, None] * r[:, None]
            t.close(got, want, meth, rtol=1e-9, atol=1e-12, g=keep, inv=inv)
            p, m = f(g, method=meth, source='g', invert_z=inv, use_mask=True)
            g = keep.copy()
            t.expect((np.asarray(m) == (w[:, 2] <= 0)).all() and len(p) == m.sum(), 'hemisphere mask', g=keep)
            t.close(p, want[m], 'masked ' + meth, rtol=1e-9, atol=1e-12, g=keep)
        t.raises(RuntimeError, lambda: f(g, method='nope', source='g'), 'unknown projections are refused')
