from .common import *
from .geo import *
from .D01 import make as _planar
import numpy as np

check = Check('G04', assumptions=[
    'cylinder geometry obligations are stated for stacks of two points; rows are treated alike by the array operations used',
    'panel axes are orthonormal (columns of a rotation, proved in R01); the ray, clip and unrolling obligations are stated in the frame of the panel (axes along x, y of the lab), using that dot and cross products are rotation invariant'])
H = 'hexrd.hed.xrdutil.utils:'
CD = 'hexrd.core.instrument.cylindrical_detector:'
C = CD + 'CylindricalDetector.'


class Geo:
    """symbolic cylinder: axes p, c (free, or along x, y of the lab), position t, radius R, sample offset"""

    def __init__(s, v, aligned=False):
        one, z = num(1), num(0)
        s.P = snp.array([one, z, z]) if aligned else v.reals('p', (3,))
        s.C = snp.array([z, one, z]) if aligned else v.reals('c', (3,))
        s.p, s.c = [s.P[i] for i in range(3)], [s.C[i] for i in range(3)]
        s.n = [s.p[1] * s.c[2] - s.p[2] * s.c[1], s.p[2] * s.c[0] - s.p[0] * s.c[2], s.p[0] * s.c[1] - s.p[1] * s.c[0]]
        s.R = v.reals('R')
        s.t, s.ts, s.tc = v.reals('t', (3,)), v.reals('ts', (3,)), v.reals('tc', (3,))
        s.rs = v.reals('rs', (3, 3))
        s.hy = [lt(num(0), s.R)]
        s.org = [s.ts[i] + dot([s.rs[i, k] for k in range(3)], s.tc.a) for i in range(3)]
        s.axis = [s.t[i] + s.R * s.n[i] - s.org[i] for i in range(3)]    # a point of the cylinder axis seen from the origin

    def kw(s):
        return dict(tVec_s=s.ts, tVec_c=s.tc, rmat_s=s.rs)


@check.obligations('panel point of image coordinates (x, y): on the cylinder, at arc length x and height y', [H + '_warp_to_cylinder'])
def _(v):
    g = Geo(v)
    f = v.lift(H + '_warp_to_cylinder')
    xy = v.reals('xy', (2, 2))
    for o in v.run(lambda: f(xy, g.t, g.R, g.C, g.P, normalize=False, **g.kw()), g.hy):
        for i in range(2):
            th = xy[i, 0] / g.R
            for k in range(3):
                v.prove(f'point {i}{k}', g.hy + o.pc, eq(o.value[i, k], g.t[k] - g.org[k] + g.R * tm.sin(th) * g.p[k] + xy[i, 1] * g.c[k] + g.R * (1 - tm.cos(th)) * g.n[k]))
        un = o.value
    g = Geo(v, True)
    for o in v.run(lambda: f(xy, g.t, g.R, g.C, g.P, normalize=False, **g.kw()), g.hy):
        for i in range(2):
            th = xy[i, 0] / g.R
            w = [o.value[i, k] - g.axis[k] for k in range(3)]
            v.prove(f'on the cylinder {i}', g.hy + o.pc, eq(w[0] * w[0] + w[2] * w[2], g.R * g.R))
            v.prove(f'height {i}', g.hy + o.pc, eq(w[1], xy[i, 1]))
        un = o.value
    for o in v.run(lambda: f(xy, g.t, g.R, g.C, g.P, normalize=True, **g.kw()), g.hy):
        for i in range(2):
            n2 = sum_([un[i, k] * un[i, k] for k in range(3)])
            for k in range(3):
                v.prove(f'normalised {i}{k}', g.hy + o.pc + [lt(num(0), n2)], eq(o.value[i, k] * tm.sqrt(n2), un[i, k]))


@check.obligations('the panel methods see the point from the crystal: offset of the sample plus rotated offset of the crystal', [C + 'cart_to_dvecs', C + 'cart_to_angles', H + '_warp_to_cylinder'])
def _(v):
    g = Geo(v)
    K = v.lift(CD + 'CylindricalDetector')
    K.caxis, K.paxis = property(lambda s: g.C), property(lambda s: g.P)
    d = object.__new__(K)
    d._tvec, d._radius, d._distortion = g.t, g.R, None
    xy = v.reals('xy', (2, 2))
    for o in v.run(lambda: d.cart_to_dvecs(xy, tvec_s=g.ts, rmat_s=g.rs, tvec_c=g.tc), g.hy):
        for i in range(2):
            th = xy[i, 0] / g.R
            for k in range(3):
                v.prove(f'point {i}{k}', g.hy + o.pc, eq(o.value[i, k], g.t[k] - g.org[k] + g.R * tm.sin(th) * g.p[k] + xy[i, 1] * g.c[k] + g.R * (1 - tm.cos(th)) * g.n[k]))


@check.obligations('ray and cylinder: the intersection is on the ray and on the cylinder, the far one of the two', [H + '_unitvec_to_cylinder'])
def _(v):
    f = v.lift(H + '_unitvec_to_cylinder')
    g = Geo(v, True)
    u = v.reals('u', (2, 3))
    un = [eq(dot([u[i, k] for k in range(3)], [u[i, k] for k in range(3)]), num(1)) for i in range(2)]
    rel = [(u[i, 1], 1 - u[i, 0] * u[i, 0] - u[i, 2] * u[i, 2]) for i in range(2)]
    A = g.axis
    for o in v.run(lambda: f(u, g.C, g.P, g.R, g.t, g.ts, g.tc, g.rs), g.hy + un, max_paths=40):
        h = g.hy + un + o.pc
        for i in range(2):
            x = [o.value[i, k] for k in range(3)]
            a = u[i, 0] * u[i, 0] + u[i, 2] * u[i, 2]
            b = u[i, 0] * A[0] + u[i, 2] * A[2]
            c = g.R * g.R - A[0] * A[0] - A[2] * A[2]
            tiny = num(tm.Fraction(1, 10 ** 10))
            disc = b * b + a * c
            for k in range(3):
                v.prove(f'far intersection {i}{k}', h + [le(tiny, a), le(num(0), disc)], eq(x[k] * a, (b + tm.sqrt(disc)) * u[i, k]), relations=rel)
    # lemma: (b + sqrt(b^2 + a c)) / a satisfies the quadratic of the cylinder and is the larger root
    a, b, c, s, y = (v.reals(k) for k in ('qa', 'qb', 'qc', 'qs', 'qy'))
    hy = [lt(num(0), a), le(num(0), s), eq(s * s, b * b + a * c)]
    v.prove('lemma: root', hy, eq((b + s) * (b + s) - 2 * b * (b + s) - a * c, num(0)))
    v.prove('lemma: larger root', hy + [eq(a * (a * y * y - 2 * b * y - c), num(0))], le(a * y - b, s))


@check.obligations('points clipped to the panel: height within the width of the image, polar angle within the extent', [H + '_clip_to_cylindrical_detector'])
def _(v):
    g = Geo(v, True)
    f = v.lift(H + '_clip_to_cylindrical_detector')
    u = v.reals('u', (1, 3))
    size, ext = v.reals('size', (2,)), v.reals('ext')
    hy = g.hy + [lt(num(0), size[0]), lt(num(0), ext)]
    for o in v.run(lambda: f(u, g.t, g.C, g.P, g.R, size, ext, **g.kw()), hy, max_paths=200):
        res, ok = o.value
        h = hy + o.pc
        w = [u[0, k] - g.axis[k] for k in range(3)]
        hgt, rad = w[1], -w[2] / g.R
        ang = tm.acos(ite(lt(num(1), rad), num(1), ite(lt(rad, num(-1)), num(-1), rad)))
        inside = and_(le(hgt, size[0] * half()), le(-hgt, size[0] * half()), lt(ang, ext))
        v.prove('kept points are on the panel', h, implies(tm.tobool(L(ok[0])), inside))
        v.prove('points on the panel are kept', h, implies(inside, tm.tobool(L(ok[0]))))


@check.obligations('image coordinates of a point of the cylinder: signed arc length and height', [H + '_dewarp_from_cylinder'])
def _(v):
    g = Geo(v, True)
    f = v.lift(H + '_dewarp_from_cylinder')
    u = v.reals('u', (2, 3))
    for o in v.run(lambda: f(u, g.t, g.C, g.P, g.R, **g.kw()), g.hy, max_paths=200):
        for i in range(2):
            w = [u[i, k] - g.axis[k] for k in range(3)]
            rad = -w[2] / g.R
            on = [le(rad, num(1)), le(num(-1), rad)]
            h = g.hy + o.pc + on
            v.prove(f'height {i}', h, eq(o.value[i, 1], w[1]))
            v.prove(f'arc length {i}', h + [lt(num(0), w[0])], eq(o.value[i, 0], g.R * tm.acos(rad)))
            v.prove(f'arc length, other side {i}', h + [lt(w[0], num(0))], eq(o.value[i, 0], -g.R * tm.acos(rad)))
            v.prove(f'arc length, centre line {i}', h + [eq(w[0], num(0))], eq(o.value[i, 0] * o.value[i, 0], g.R * g.R * tm.acos(rad) * tm.acos(rad)))


def rand_cyl(rng, **kw):
    from hexrd.core.instrument.cylindrical_detector import CylindricalDetector
    b, e = rand_beam(rng)
    rad = rng.uniform(20, 120)
    rows, cols = (int(x) for x in rng.integers(2, 12, 2))
    ext = rng.uniform(.2, 1.4)
    pr, pc = rng.uniform(20, 120) / rows, 2 * ext * rad / cols
    tilt = rng.normal(size=3) * rng.choice([0, .05, .3])
    # sample inside the cylinder: axis at t + R n
    tv = np.r_[rng.normal(size=2) * .1 * rad, -rad * rng.uniform(.5, 1.5)]
    a = dict(rows=rows, cols=cols, pixel_size=(pr, pc), tvec=tv, tilt=tilt, bvec=b, evec=e, radius=rad)
    a.update(kw)
    return CylindricalDetector(**a)


def cyl_point(d, xy):
    R = nrot(d.tilt)
    th = xy[:, 0] / d.radius
    return (d.tvec + np.outer(d.radius * np.sin(th), R[:, 0]) + np.outer(xy[:, 1], R[:, 1]) + np.outer(d.radius * (1 - np.cos(th)), R[:, 2]))


def info(d, **k):
    return dict(tilt=d.tilt, tvec=d.tvec, radius=d.radius, bvec=d.bvec, evec=d.evec, shape=d.shape, pitch=(d.pixel_size_row, d.pixel_size_col), **k)


@check.runtime('image coordinates, angles and back for points of the panel', [
    C + 'cart_to_angles', C + 'angles_to_cart', C + 'cart_to_dvecs', C + 'pixel_angles', H + '_warp_to_cylinder', H + '_unitvec_to_cylinder',
    H + '_clip_to_cylindrical_detector', H + '_dewarp_from_cylinder', H + '_dvecToDetectorXYcylinder', H + '_project_on_detector_cylinder',
    'hexrd.hedm.xrdutil.utils:_dvec_to_angs', C + 'local_normal', C + 'angle_extent', C + 'physical_size'], n=150)
def _(t):
    rng = t.rng
    for k in t.cases():
        d = rand_cyl(rng)
        if k % 3 == 2:
            turn_round(d)
        RB = beam_frame(d.bvec, d.evec)
        hw, hh = d.col_dim / 2, d.row_dim / 2
        n = int(rng.integers(1, 6))
        xy = np.c_[rng.uniform(-hw, hw, n), rng.uniform(-hh, hh, n)] * .999
        chi, ome = rng.uniform(-.5, .5) * rng.integers(0, 2), rng.uniform(-np.pi, np.pi) * rng.integers(0, 2)
        rs = sample(chi, ome)
        ts, tc = rng.normal(size=3) * rng.integers(0, 2), rng.normal(size=3) * rng.integers(0, 2)
        org = ts + rs @ tc
        I = info(d, xy=xy, chi=chi, ome=ome, ts=ts, tc=tc)
        p = cyl_point(d, xy)
        t.close(d.cart_to_dvecs(xy), p, 'lab points', atol=1e-9, **I)
        t.close(d.cart_to_dvecs(xy, tvec_s=ts, rmat_s=rs, tvec_c=tc), p - org, 'lab points seen from the crystal', atol=1e-9, **I)
        w = np.array([angles_of(q - org, RB) for q in p])
        got, dv = d.cart_to_angles(xy, rmat_s=rs, tvec_s=ts, tvec_c=tc)
        t.close(np.cos(got[:, 0]), np.cos(w[:, 0]), 'two-theta', atol=1e-9, **I)
        t.close(wrapped(got[:, 1], w[:, 1]) * np.sin(w[:, 0]), 0 * w[:, 1], 'eta', atol=1e-8, **I)
        t.close(dv, (p - org) / np.linalg.norm(p - org, axis=1)[:, None], 'unit rays', atol=1e-9, **I)
        R = nrot(d.tilt)
        A = d.tvec + d.radius * R[:, 2] - org
        rad = A - (A @ R[:, 1]) * R[:, 1]
        back = d.angles_to_cart(w, rmat_s=rs, tvec_s=ts, tvec_c=tc)
        if np.linalg.norm(rad) < .95 * d.radius:
            t.close(back, xy, 'angles_to_cart inverts cart_to_angles (sample inside the cylinder)', rtol=1e-7, atol=1e-6 * d.radius, **I)
        # rays in all directions: a reported point is on its ray and on the panel
        dirs = np.array([np.arccos(rng.uniform(-1, 1, 6)), rng.uniform(-np.pi, np.pi, 6)]).T
        x = d.angles_to_cart(dirs, rmat_s=rs, tvec_s=ts, tvec_c=tc)
        on = ~np.isnan(x[:, 0])
        t.expect((np.abs(x[on, 0]) <= hw * (1 + 1e-9)).all() and (np.abs(x[on, 1]) <= hh * (1 + 1e-9)).all(), 'points are on the panel', x=x, **I)
        for a, q in zip(dirs[on], cyl_point(d, x[on])):
            u = dvec(a[0], a[1], RB)
            t.close(np.cross(u, q - org) / d.radius, np.zeros(3), 'the point is on the ray', atol=1e-7, ang=a, **I)
        for a in dirs[~on]:
            # a miss: the forward intersection with the full cylinder is off the panel
            u = dvec(a[0], a[1], RB)
            c = R[:, 1]
            up, Ap = u - (u @ c) * c, A - (A @ c) * c
            aa, bb, cc = up @ up, up @ Ap, Ap @ Ap - d.radius ** 2
            if cc < -1e-3 and aa > 1e-6:
                q = (bb + np.sqrt(bb * bb - aa * cc)) / aa * u + org
                s = q - d.tvec - d.radius * R[:, 2]
                xx, yy = d.radius * np.arctan2(s @ R[:, 0], -(s @ R[:, 2])), s @ c
                t.expect(abs(xx) > hw * (1 - 1e-6) or abs(yy) > hh * (1 - 1e-6), 'a ray that hits the panel is not lost', ang=a, hit=(xx, yy), **I)
        org = rng.normal(size=3) * .1 * d.radius
        tth, eta = d.pixel_angles(origin=org)
        py, px = d.pixel_coords
        w = np.array([angles_of(q - org, RB) for q in cyl_point(d, np.c_[px.ravel(), py.ravel()])])
        t.close(np.cos(tth.ravel()), np.cos(w[:, 0]), 'pixel two-theta', atol=1e-9, **I)
        t.close(wrapped(eta.ravel(), w[:, 1]) * np.sin(w[:, 0]), 0 * w[:, 1], 'pixel eta', atol=1e-8, **I)
        nl = d.local_normal()
        s = cyl_point(d, np.c_[px.ravel(), py.ravel()]) - d.tvec - d.radius * R[:, 2]
        s = s - np.outer(s @ R[:, 1], R[:, 1])
        t.close(nl, s / d.radius, 'outward normal', atol=1e-9, **I)
        bp = np.ravel(d.beam_position)
        if not np.isnan(bp).any():
            zero, _ = d.cart_to_angles(bp[None])
            t.expect(zero[0, 0] < 1e-6, 'the beam position has two-theta zero', tth=zero, **I)


@check.runtime('distortion on a cylinder only when asked for', [C + 'angles_to_cart', C + 'cart_to_angles'], n=20)
def _(t):
    from hexrd.core.distortion import get_mapping
    rng = t.rng
    for k in t.cases():
        d = rand_cyl(rng, tvec=[0, 0, -60.], radius=60.)
        e = rand_cyl(rng)
        e.__dict__.update(d.__dict__)
        dist = get_mapping('GE_41RT', np.r_[rng.normal(size=3) * 1e-4, 2, 2, 2])
        d.distortion = dist
        n = int(rng.integers(1, 4))
        xy = np.c_[rng.uniform(-.3, .3, n) * d.col_dim, rng.uniform(-.3, .3, n) * d.row_dim]
        a, _ = d.cart_to_angles(xy, apply_distortion=True)
        b, _ = e.cart_to_angles(dist.apply(xy))
        I = info(d, xy=xy, params=dist.params)
        t.close(a, b, 'distortion applied to measured coordinates', **I)
        t.close(d.cart_to_angles(xy)[0], e.cart_to_angles(xy)[0], 'no distortion unless asked for', **I)
        t.close(d.angles_to_cart(a, apply_distortion=True), xy, 'inverse distortion on the way back', atol=1e-5, **I)
        t.close(d.angles_to_cart(a), e.angles_to_cart(a), 'no inverse distortion unless asked for', **I)
