from .common import *
from .geo import *
import numpy as np

check = Check('D01', assumptions=[
    'planar panels: the compiled angle/ray kernels enter the symbolic obligations through their contracts (decided on generated inputs in G01, G03)'])
PD = 'hexrd.core.instrument.planar_detector:PlanarDetector'
D = 'hexrd.core.instrument.detector:Detector.'
P = PD + '.'


def panel(v, **kw):
    """a panel with symbolic shape, pitch and position"""
    C = v.lift(PD)
    d = object.__new__(C)
    r = v.reals('r', (3, 3))
    at = dict(_rows=v.dim('rows'), _cols=v.dim('cols'), _pixel_size_row=v.reals('pr'), _pixel_size_col=v.reals('pc'),
              _tvec=v.reals('t', (3,)), _tilt=v.reals('tilt', (3,)), _bvec=v.reals('b', (3,)), _evec=v.reals('e', (3,)),
              _distortion=None, _panel_buffer=None, _roi=None)
    at.update(kw)
    for k, x in at.items():
        setattr(d, k, x)
    hy = [lt(num(0), at['_pixel_size_row']), lt(num(0), at['_pixel_size_col'])]
    if isinstance(at['_rows'], T):
        hy += [le(num(1, 'I'), at['_rows']), le(num(1, 'I'), at['_cols'])]
    return d, hy


def xy_of(d, i, j):
    """centre of pixel (i, j): columns along +x, rows along -y, panel centred on the origin"""
    return ((j + half() - d._cols * half()) * d._pixel_size_col, (d._rows * half() - i - half()) * d._pixel_size_row)


@check.obligations('pixel centres, edges and corners of a panel of any size', [D + n for n in (
    'row_pixel_vec', 'col_pixel_vec', 'row_edge_vec', 'col_edge_vec', 'corner_ul', 'corner_ll', 'corner_lr', 'corner_ur', 'row_dim', 'col_dim', 'pixel_area')])
def _(v):
    d, hy = panel(v)
    k = sym('k', 'I')
    R, C, pr, pc = d._rows, d._cols, d._pixel_size_row, d._pixel_size_col
    for name, n, f in (('row_pixel_vec', R, lambda k: xy_of(d, k, 0)[1]), ('col_pixel_vec', C, lambda k: xy_of(d, 0, k)[0]),
                       ('row_edge_vec', R + 1, lambda k: (R * half() - k) * pr), ('col_edge_vec', C + 1, lambda k: (k - C * half()) * pc)):
        for o in v.run(lambda: getattr(d, name), hy):
            a = o.value
            v.prove(f'{name}: length', hy + o.pc, eq(L(a.shape[0]), n))
            h = hy + o.pc + [le(num(0, 'I'), k), lt(k, n)]
            v.prove(f'{name}: element', h, eq(a.el((k,)), f(k)))
    for name, sx, sy in (('corner_ul', -1, 1), ('corner_ll', -1, -1), ('corner_lr', 1, -1), ('corner_ur', 1, 1)):
        for o in v.run(lambda: getattr(d, name), hy):
            v.eq_arrays(name, hy + o.pc, o.value, snp.array([num(sx) * half() * C * pc, num(sy) * half() * R * pr]))
    for name, w in (('row_dim', R * pr), ('col_dim', C * pc), ('pixel_area', pr * pc)):
        for o in v.run(lambda: getattr(d, name), hy):
            v.prove(name, hy + o.pc, eq(L(o.value), w))


@check.obligations('pixel to cartesian and cartesian to pixel are inverse, for any number of points on or off the panel', [D + 'cartToPixel', D + 'pixelToCart'])
def _(v):
    d, hy = panel(v)
    n = v.dim('n')
    hy = hy + [le(num(1, 'I'), n)]
    k = sym('k', 'I')
    hk = hy + [le(num(0, 'I'), k), lt(k, n)]
    ij = v.array('ij', (n, 2))
    e = lambda a, c: a.el((k, num(c, 'I')))
    for o in v.run(lambda: d.pixelToCart(ij), hy):
        w = xy_of(d, e(ij, 0), e(ij, 1))
        v.prove('pixelToCart: x', hk + o.pc, eq(e(o.value, 0), w[0]))
        v.prove('pixelToCart: y', hk + o.pc, eq(e(o.value, 1), w[1]))
        v.prove('pixelToCart: one row per point', hy + o.pc, eq(L(o.value.shape[0]), n))
    for o in v.run(lambda: d.cartToPixel(d.pixelToCart(ij)), hy):
        for c in (0, 1):
            v.prove(f'cartToPixel(pixelToCart) {c}', hk + o.pc, eq(e(o.value, c), e(ij, c)))
    for o in v.run(lambda: d.pixelToCart(d.cartToPixel(ij)), hy):
        for c in (0, 1):
            v.prove(f'pixelToCart(cartToPixel) {c}', hk + o.pc, eq(e(o.value, c), e(ij, c)))
    # discrete pixels: the cell that contains the point
    for o in v.run(lambda: d.cartToPixel(ij, pixels=True), hy):
        for c in (0, 1):
            p = e(o.value, c)
            centre = xy_of(d, e(o.value, 0), e(o.value, 1))
            dev = (e(ij, 0) - centre[0]) / d._pixel_size_col if c else (e(ij, 1) - centre[1]) / d._pixel_size_row
            v.prove(f'discrete pixel contains the point {c}', hk + o.pc, and_(le(dev, half()), le(-dev, half())))


@check.obligations('distortion is applied before the pixel lookup exactly when asked for', [D + 'cartToPixel'])
def _(v):
    class Dist:
        def apply(self, xy):
            return snp.array([[app('dx', xy[i, 0], xy[i, 1]), app('dy', xy[i, 0], xy[i, 1])] for i in range(2)])
    xy = v.reals('xy', (2, 2))
    for on in (False, True):
        d, hy = panel(v, _distortion=Dist())
        for o in v.run(lambda: d.cartToPixel(xy, apply_distortion=on), hy):
            src = Dist().apply(xy) if on else xy
            for i in range(2):
                w = xy_of(d, o.value[i, 0], o.value[i, 1])
                v.prove(f'apply_distortion={on} x{i}', hy + o.pc, eq(w[0], src[i, 0]))
                v.prove(f'apply_distortion={on} y{i}', hy + o.pc, eq(w[1], src[i, 1]))


@check.obligations('points of the panel in the lab frame; the direct beam hits the panel at beam_position', [P + 'cart_to_dvecs', P + 'beam_position'])
def _(v):
    r = v.reals('r', (3, 3))
    d, hy = panel(v)
    C = v.lift(PD, contracts={'hexrd.core.transforms.xfcapi:make_rmat_of_expmap': lambda t: r})
    d2 = object.__new__(C)
    d2.__dict__.update(d.__dict__)
    t, b = d2._tvec, d2._bvec
    xy = v.reals('xy', (2, 2))
    for o in v.run(lambda: d2.cart_to_dvecs(xy), hy):
        for i in range(2):
            for c in range(3):
                v.prove(f'lab point {i}{c}', hy + o.pc, eq(o.value[i, c], r[c, 0] * xy[i, 0] + r[c, 1] * xy[i, 1] + t[c]))
    n = [r[i, 2] for i in range(3)]
    bn = dot(b.a, n)
    outs = v.run(lambda: d2.beam_position, hy)
    some = False
    ortho = [eq(dot([r[i, c] for i in range(3)], [r[i, e] for i in range(3)]), num(int(c == e))) for c in range(3) for e in range(c, 3)]
    for o in outs:
        h = hy + o.pc
        x = o.value
        if any(tm.isnan(L(y)) is TRUE for y in x.a.reshape(-1)):
            v.prove('no position only when the beam does not travel towards the panel front', h, le(-num(tm.Fraction(2, 10 ** 8)), bn))
            continue
        some = True
        u = dot(n, t.a) / bn
        for c in range(2):
            # in-plane coordinates of the point u*b on the panel plane
            v.prove(f'in-plane coordinate {c}', h, eq(x[c], dot([r[i, c] for i in range(3)], [u * b[i] - t[i] for i in range(3)])))
        v.prove('that point lies in the panel plane', h, eq(dot(n, [u * b[i] - t[i] for i in range(3)]), num(0)))
    v.require('positions exist', some)


def make(rng, cls=None, dist=False, small=True, **kw):
    from hexrd.core.instrument.planar_detector import PlanarDetector
    b, e = rand_beam(rng)
    rows, cols = (int(x) for x in rng.integers(2, 14 if small else 60, 2))
    tilt = rng.normal(size=3) * rng.choice([0, .05, .4])
    a = dict(rows=rows, cols=cols, pixel_size=tuple(rng.uniform(.05, 20., 2)), tvec=np.r_[rng.normal(size=2) * 40, -rng.uniform(200, 900)],
             tilt=tilt, bvec=b, evec=e)
    a.update(kw)
    return PlanarDetector(**a)


def lab_point(d, xy):
    R = nrot(d.tilt)
    return xy[:, :1] * R[:, 0] + xy[:, 1:] * R[:, 1] + d.tvec


@check.runtime('pixel and cartesian coordinates', [D + 'cartToPixel', D + 'pixelToCart', D + 'pixel_coords', D + 'row_pixel_vec', D + 'col_pixel_vec'], n=80)
def _(t):
    for k in t.cases():
        d = make(t.rng)
        ij = t.rng.uniform(-3, 16, (5, 2))
        xy = d.pixelToCart(ij)
        t.close(d.cartToPixel(xy), ij, 'pixel round trip', atol=1e-9, d=str(d.__dict__)[:300], ij=ij)
        py, px = d.pixel_coords
        i, j = np.indices(d.shape)
        w = d.pixelToCart(np.c_[i.ravel(), j.ravel()])
        t.close(np.c_[px.ravel(), py.ravel()], w, 'pixel grid', shape=d.shape)
        t.expect(np.array_equal(d.cartToPixel(w, pixels=True), np.c_[i.ravel(), j.ravel()]), 'centres fall in their pixels', shape=d.shape)
        t.close(np.diff(d.row_edge_vec).mean(), -d.pixel_size_row, 'row pitch')
        t.close(d.corner_lr, d.pixelToCart([[d.rows - .5, d.cols - .5]])[0], 'lower right corner', atol=1e-9)


def tilted_beam(d):
    return beam_frame(d.bvec, d.evec)


@check.runtime('detector coordinates and scattering angles: same ray both ways, sample offset and rotation, eta measured in the beam frame', [
    P + 'cart_to_angles', P + 'angles_to_cart', P + 'pixel_angles', P + 'beam_position', P + 'cart_to_dvecs', D + 'rmat'], n=150)
def _(t):
    for k in t.cases():
        d = make(t.rng)
        RB = tilted_beam(d)
        xy = t.rng.normal(size=(4, 2)) * 120
        chi, ome = t.rng.uniform(-.5, .5) * t.rng.integers(0, 2), t.rng.uniform(-np.pi, np.pi) * t.rng.integers(0, 2)
        rs = sample(chi, ome)
        ts, tc = t.rng.normal(size=3) * t.rng.integers(0, 2), t.rng.normal(size=3) * t.rng.integers(0, 2)
        org = ts + rs @ tc
        p = lab_point(d, xy)
        t.close(d.cart_to_dvecs(xy), p, 'lab points', atol=1e-9)
        want = np.array([angles_of(q - org, RB) for q in p])
        got, g = d.cart_to_angles(xy, rmat_s=rs, tvec_s=ts, tvec_c=tc)
        info = dict(tilt=d.tilt, tvec=d.tvec, bvec=d.bvec, evec=d.evec, xy=xy, chi=chi, ome=ome, ts=ts, tc=tc)
        t.close(got[:, 0], want[:, 0], 'two-theta', atol=1e-9, **info)
        t.close(wrapped(got[:, 1], want[:, 1]) * np.sin(want[:, 0]), 0 * want[:, 1], 'eta', atol=1e-9, **info)
        miss, _ = d.cart_to_angles(np.array([[np.nan, np.nan], xy[0]]), rmat_s=rs, tvec_s=ts, tvec_c=tc)
        t.expect(np.isnan(miss[0]).all() and not np.isnan(miss[1]).any(), 'missing coordinates have no angles', miss=miss, **info)
        front = (p - org) @ nrot(d.tilt)[:, 2] < 0
        rc = nrot(rand_rot(t.rng)) if t.rng.integers(0, 2) else None
        back = d.angles_to_cart(got, rmat_s=rs, tvec_s=ts, tvec_c=tc, rmat_c=rc)
        t.close(back[front], xy[front], 'angles_to_cart inverts cart_to_angles', rtol=1e-7, atol=1e-6, **info)
        org = t.rng.normal(size=3)
        tth, eta = d.pixel_angles(origin=org)
        py, px = d.pixel_coords
        w = np.array([angles_of(q - org, RB) for q in lab_point(d, np.c_[px.ravel(), py.ravel()])])
        t.close(tth.ravel(), w[:, 0], 'pixel two-theta', atol=1e-9, **info)
        t.close(wrapped(eta.ravel(), w[:, 1]) * np.sin(w[:, 0]), 0 * w[:, 1], 'pixel eta', atol=1e-9, **info)
        b2 = rand_unit(t.rng, 3) * .2 + d.bvec
        b2 /= np.linalg.norm(b2)
        if np.linalg.norm(np.cross(b2, d.evec)) > .1:
            RB2 = beam_frame(b2, d.evec)
            w = np.array([angles_of(q, RB2) for q in lab_point(d, np.c_[px.ravel(), py.ravel()])])
            t.close(d.pixel_angles(bvec=b2)[0].ravel(), w[:, 0], 'pixel two-theta for another beam', atol=1e-9, **info)
        bp = d.beam_position
        n = nrot(d.tilt)[:, 2]
        if d.bvec @ n < -1e-6:
            t.close(lab_point(d, bp[None])[0], d.bvec * (n @ d.tvec) / (n @ d.bvec), 'beam position', atol=1e-7, **info)
            zero, _ = d.cart_to_angles(bp[None])
            t.expect(zero[0, 0] < 1e-6, 'the direct beam has two-theta zero', tth=zero, **info)
        else:
            t.expect(np.isnan(bp).all(), 'no beam position', **info)


@check.runtime('angles through a distortion', [P + 'cart_to_angles', P + 'angles_to_cart', P + 'pixel_angles', D + 'cartToPixel'], n=30)
def _(t):
    from hexrd.core.distortion import get_mapping
    for k in t.cases():
        dist = get_mapping('GE_41RT', np.r_[t.rng.normal(size=3) * 1e-4, 2, 2, 2])
        d = make(t.rng, distortion=dist)
        e = make(t.rng)
        e.__dict__.update({**d.__dict__, '_distortion': None})
        xy = t.rng.uniform(-90, 90, (4, 2))
        a, _ = d.cart_to_angles(xy, apply_distortion=True)
        b, _ = e.cart_to_angles(dist.apply(xy))
        c, _ = d.cart_to_angles(xy)
        c0, _ = e.cart_to_angles(xy)
        info = dict(tilt=d.tilt, tvec=d.tvec, xy=xy, params=dist.params)
        t.close(a, b, 'distortion applied to measured coordinates', **info)
        t.close(c, c0, 'no distortion unless asked for', **info)
        t.close(d.angles_to_cart(a, apply_distortion=True), xy, 'inverse distortion on the way back', atol=1e-6, **info)
        t.close(d.angles_to_cart(a), e.angles_to_cart(a), 'no inverse distortion unless asked for', atol=1e-9, **info)
        py, px = d.pixel_coords
        w, _ = e.cart_to_angles(dist.apply(np.c_[px.ravel(), py.ravel()]))
        t.close(np.c_[d.pixel_angles()[0].ravel(), d.pixel_angles()[1].ravel()], w, 'pixel angles are those of the undistorted coordinates', atol=1e-9, **info)


@check.runtime('angular size of a pixel', [D + 'angularPixelSize', 'hexrd.hedm.xrdutil.utils:angularPixelSize', 'hexrd.hedm.xrdutil.utils:_expand_pixels', 'hexrd.hedm.xrdutil.utils:_compute_max'], n=60)
def _(t):
    for k in t.cases():
        d = make(t.rng)
        RB = tilted_beam(d)
        xy = t.rng.normal(size=(3, 2)) * 60
        rs, ts, tc = sample(0, t.rng.uniform(-3, 3)), t.rng.normal(size=3), t.rng.normal(size=3)
        got = d.angularPixelSize(xy, rMat_s=rs, tVec_s=ts, tVec_c=tc)
        org = ts + rs @ tc
        for i, q in enumerate(xy):
            hx, hy = d.pixel_size_col / 2, d.pixel_size_row / 2
            cor = q + np.array([[-hx, -hy], [hx, -hy], [hx, hy], [-hx, hy]])
            a = np.array([angles_of(p - org, RB) for p in lab_point(d, cor)])
            nx = np.roll(a, -1, 0)
            w = [np.abs(a[:, 0] - nx[:, 0]).max(), wrapped(a[:, 1], nx[:, 1]).max()]
            t.close(got[i], w, 'largest angular extent of a pixel edge', atol=1e-8, xy=q, pitch=(d.pixel_size_row, d.pixel_size_col), tvec=d.tvec, tilt=d.tilt)
