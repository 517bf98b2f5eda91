from .common import *
import numpy as np

check = Check('D03', assumptions=[
    'kernels applying a distortion to rows are discharged at one and two rows (they treat rows alike in one loop)',
    'the compiled GE_41RT inverse is decided on generated inputs'])
B = 'hexrd.core.distortion.'
Q = B + 'dexela_2923_quad:'
X = B + 'dexela_2923:'
G = B + 'ge_41rt:'


@check.obligations('Dexela quadrants: each point moves by the offset of its own quadrant; inverse moves it back', [
    X + '_dexela_2923_distortion', X + '_dexela_2923_inverse_distortion', X + 'Dexela_2923.apply', X + 'Dexela_2923.apply_inverse'])
def _(v):
    C = v.lift(X + 'Dexela_2923')
    for n in (1, 2):
        xy, p = v.reals('xy', (n, 2)), v.reals('p', (8,))
        for meth, s in (('apply', 1), ('apply_inverse', -1)):
            def call():
                d = object.__new__(C)
                d._params = p
                return getattr(d, meth)(xy)
            for o in v.run(call, [], max_paths=60):
                for i in range(n):
                    x, y = xy[i, 0], xy[i, 1]
                    for k in range(2):
                        off = ite(lt(x, num(0)), ite(lt(y, num(0)), p[4 + k], p[2 + k]), ite(lt(y, num(0)), p[6 + k], p[k]))
                        v.prove(f'{meth} {n}:{i}{k}', o.pc, eq(o.value[i, k], xy[i, k] + s * off))


@check.obligations('Dexela affine map: the two directions are inverse for all non-singular parameters', [
    Q + '_dexela_2923_quad_distortion', Q + '_dexela_2923_quad_inverse_distortion', Q + 'Dexela_2923_quad.apply', Q + 'Dexela_2923_quad.apply_inverse'])
def _(v):
    C = v.lift(Q + 'Dexela_2923_quad')
    xy, p = v.reals('xy', (2, 2)), v.reals('p', (6,))
    a, d = p[1] + num(tm.Fraction(10) ** -12), p[5] + num(tm.Fraction(10) ** -12)
    hy = [not_(eq(a, num(0))), not_(eq(d, num(0))), not_(eq(a * d - p[2] * p[4], num(0))), not_(eq(p[1], num(0)))]

    def both(first, second):
        def call():
            o = object.__new__(C)
            o._params = p
            y = getattr(o, first)(xy)
            return y, getattr(o, second)(y)
        return call
    for first, second in (('apply', 'apply_inverse'), ('apply_inverse', 'apply')):
        for o in v.run(both(first, second), hy):
            y, z = o.value
            for i in range(2):
                for k in range(2):
                    v.prove(f'{second}({first}) {i}{k}', hy + o.pc, eq(z[i, k], xy[i, k]))
                    if first == 'apply_inverse':
                        w = p[3 * k] + (a if k == 0 else p[4]) * xy[i, 0] + (p[2] if k == 0 else d) * xy[i, 1]
                        v.prove(f'affine form {i}{k}', hy + o.pc, eq(y[i, k], w))


@check.obligations('GE radial form: points move along their radius by the azimuthal harmonic series, the centre stays', [G + '_ge_41rt_distortion', G + 'GE_41RT.apply'])
def _(v):
    rm = v.reals('rhomax')
    C = v.lift(G + 'GE_41RT', overrides={('hexrd.core.distortion.ge_41rt', 'RHO_MAX'): rm})
    xy, p = v.reals('xy', (1, 2)), v.reals('p', (6,))
    hy = [not_(and_(*[eq(p[i], num(0)) for i in range(3)])), lt(num(0), rm)]

    def call():
        d = object.__new__(C)
        d._params = p
        return d.apply(xy)
    x, y = xy[0, 0], xy[0, 1]
    r = tm.sqrt(x * x + y * y)
    for o in v.run(call, hy):
        h = hy + o.pc
        c, s = x / r, y / r
        c2, s2 = c * c - s * s, 2 * s * c
        c4 = c2 * c2 - s2 * s2
        q = r / rm
        f = 1 + p[0] * tm.power(q, p[3]) * c2 + p[1] * tm.power(q, p[4]) * c4 + p[2] * tm.power(q, p[5])
        big = [le(num(tm.Fraction(1, 1000)), r)]
        zero = [eq(x, num(0)), eq(y, num(0))]
        for k in range(2):
            v.prove(f'radial scale {k}', h + big, eq(o.value[0, k], xy[0, k] * f))
            v.prove(f'centre {k}', h + zero, eq(o.value[0, k], num(0)))


@check.obligations('zero parameters leave points untouched, in every distortion model', [
    X + 'Dexela_2923.is_trivial', Q + 'Dexela_2923_quad.is_trivial', G + 'GE_41RT.is_trivial', B + 'identity:Identity.apply', B + 'identity:Identity.apply_inverse'])
def _(v):
    for path, n in ((X + 'Dexela_2923', 8), (Q + 'Dexela_2923_quad', 6), (G + 'GE_41RT', 6), (B + 'identity:Identity', 0)):
        C = v.lift(path)
        xy = v.reals('xy', (3, 2))
        for meth in ('apply', 'apply_inverse'):
            def call():
                d = object.__new__(C)
                d._params = snp.zeros(n)
                return getattr(d, meth)(xy)
            for o in v.run(call, []):
                v.eq_arrays(f'{path.split(":")[1]} {meth}', o.pc, o.value, xy)


def ge_params(rng, e=(2., 2., 2.)):
    return np.r_[rng.normal(size=3) * rng.choice([1e-5, 1e-4, 1e-3, 5e-3]) * (rng.random(3) < .8), e]


def ge_forward(xy, p):
    r, n = np.hypot(*xy.T), np.arctan2(xy[:, 1], xy[:, 0])
    q = r / 204.8
    f = 1 + p[0] * q ** p[3] * np.cos(2 * n) + p[1] * q ** p[4] * np.cos(4 * n) + p[2] * q ** p[5]
    return xy * f[:, None]


@check.runtime('distortion and inverse on real panels, every registered model', [
    B + 'get_mapping', B + 'maptypes', G + 'GE_41RT.apply', G + 'GE_41RT.apply_inverse', G + '_ge_41rt_distortion', G + 'inverse_distortion_numpy',
    'inverse_distortion(cpp).ge_41rt_inverse_distortion', X + 'Dexela_2923.apply', Q + 'Dexela_2923_quad.apply'], n=200)
def _(t):
    from hexrd.core import distortion as dm
    from hexrd.core.distortion import ge_41rt
    rng = t.rng
    t.expect({'GE_41RT', 'Dexela_2923', 'Dexela_2923_quad', 'identity'} <= set(dm.maptypes()), 'registered models', got=dm.maptypes())
    for k in t.cases():
        n = int(rng.integers(1, 8))
        xy = rng.uniform(-204, 204, (n, 2))
        xy[rng.random(n) < .1] *= 0
        xy[rng.random(n) < .1, 0] = 0
        keep = xy.copy()
        p = ge_params(rng)
        d = dm.get_mapping('GE_41RT', p)
        a = d.apply(xy)
        t.close(a, ge_forward(xy, p), 'GE forward form', atol=1e-9, xy=xy, p=p)
        t.close(d.apply_inverse(a), xy, 'GE inverse of forward', atol=1e-7, rtol=1e-7, xy=xy, p=p)
        t.close(d.apply(d.apply_inverse(xy)), xy, 'GE forward of inverse', atol=1e-7, rtol=1e-7, xy=xy, p=p)
        r0 = np.hypot(*xy.T) + 1e-3
        e0 = np.arctan2(xy[:, 1], xy[:, 0])
        e = rng.choice([1., 2., 2.5, 3.], 3)
        pe = np.r_[p[:3], e]
        de = dm.get_mapping('GE_41RT', pe)
        t.close(de.apply(xy), ge_forward(xy, pe), 'GE forward form, any exponents', atol=1e-9, xy=xy, p=pe)
        off = np.abs(de.apply_inverse(de.apply(xy)) - xy).max()
        t.expect(off < 1e-6, 'GE inverse of forward, any exponents', finding='ge41rt-exponents' if (e != 2).any() else None, xy=xy, p=pe, off=off)
        t.expect((xy == keep).all(), 'the caller\'s coordinates are not changed', xy=keep)
        # quadrants: inverse exact when the offset does not carry the point across an axis
        pq = rng.normal(size=8) * .5
        d = dm.get_mapping('Dexela_2923', pq)
        a = d.apply(xy)
        quad = lambda z: np.where(z[:, 0] < 0, np.where(z[:, 1] < 0, 2, 1), np.where(z[:, 1] < 0, 3, 0))
        t.close(a, xy + pq.reshape(4, 2)[quad(xy)], 'Dexela offsets', xy=xy, p=pq)
        same = quad(a) == quad(xy)
        t.close(d.apply_inverse(a)[same], xy[same], 'Dexela inverse', atol=1e-12, xy=xy, p=pq)
        # points on the lines between the modules
        ax = np.vstack([xy, xy * [0, 1], xy * [1, 0], [[0., 0.]]])
        for keep_ in ([1, 1], [0, 1], [1, 0]):
            po = (pq.reshape(4, 2) * keep_).ravel()
            d = dm.get_mapping('Dexela_2923', po)
            o = po.reshape(4, 2)[quad(ax)]
            t.close(d.apply(ax), ax + o, 'Dexela offsets, points on the midlines', xy=ax, p=po)
            t.close(d.apply_inverse(ax), ax - o, 'Dexela inverse offsets, points on the midlines', xy=ax, p=po)
            b = d.apply(ax)
            ok = quad(b) == quad(ax)
            t.close(d.apply_inverse(b)[ok], ax[ok], 'Dexela inverse, points on the midlines', atol=1e-12, xy=ax, p=po)
        pa = np.r_[rng.normal() * .5, 1 + rng.normal() * 1e-2, rng.normal() * 1e-2, rng.normal() * .5, rng.normal() * 1e-2, 1 + rng.normal() * 1e-2]
        d = dm.get_mapping('Dexela_2923_quad', pa)
        t.close(d.apply_inverse(d.apply(xy)), xy, 'affine inverse of forward', atol=1e-8, xy=xy, p=pa)
        t.close(d.apply(d.apply_inverse(xy)), xy, 'affine forward of inverse', atol=1e-8, xy=xy, p=pa)
        t.close(d.apply_inverse(xy), xy @ np.array([[pa[1], pa[4]], [pa[2], pa[5]]]) + pa[[0, 3]], 'affine form', atol=1e-8, xy=xy, p=pa)
        t.expect((xy == keep).all(), 'the caller\'s coordinates are not changed', xy=keep)
        new = ge_params(rng)
        d = dm.get_mapping('GE_41RT', p)
        d.params = new
        t.close(d.apply(xy), ge_forward(xy, new), 'parameters can be replaced', atol=1e-9, xy=xy, p=new)
        t.raises(AssertionError, lambda: setattr(d, 'params', new[:3]), 'wrong parameter count is refused')
        t.expect(dm.get_mapping('identity', []).apply(xy) is xy, 'identity', xy=xy)
