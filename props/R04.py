from .common import *
import numpy as np

check = Check('R04', assumptions=[
    'angular difference is stated for angles less than one period apart (both in one branch)'])
M = 'hexrd.core.rotations:'
X = 'hexrd.core.transforms.xfcapi:'
IX = 'hexrd.hedm.indexer:'
TWOPI = num(2, 'R') * PI


def congruent(x, y, period):
    k = (L(x) - L(y)) / period
    return eq(k, tm.floor(k + half()))


@check.obligations('mapAngle: congruent modulo the period, inside the requested range, boundary kept', [M + 'mapAngle'])
def _(v):
    f = v.lift(M + 'mapAngle')
    a, lo = v.reals('a'), v.reals('lo')
    for units, per in (('radians', TWOPI), ('degrees', num(360, 'R'))):
        for o in v.run(lambda: f(a, units=units)):
            r = o.value[0]
            v.require(f'{units} shape', o.value.shape == (1,), str(o.value.shape))
            v.prove(f'{units} congruent', o.pc, congruent(r, a, per))
            v.prove(f'{units} in range', o.pc, and_(le(-per / 2, r), le(r, per / 2)))
            v.prove(f'{units} angles in range are fixed', o.pc + [le(-per / 2, a), le(a, per / 2)], or_(eq(r, a)))
        for order in (0, 1):
            rng_ = (lambda: [lo, lo + per]) if order == 0 else (lambda: [lo + per, lo])
            for o in v.run(lambda: f(a, ang_range=rng_(), units=units)):
                r = o.value[0]
                v.prove(f'{units} {order} congruent', o.pc, congruent(r, a, per))
                v.prove(f'{units} {order} in range', o.pc, and_(le(lo, r), le(r, lo + per)))
                v.prove(f'{units} {order} angles in range are fixed', o.pc + [le(lo, a), le(a, lo + per)], eq(r, a))
    hi = v.reals('hi')
    for o in v.run(lambda: f(a, ang_range=[lo, hi], units='degrees'), [lt(lo, hi)], allow_exc=True):
        if o.exc is None:
            # accepted only when the range is one period (within allclose tolerance)
            v.prove('incomplete range is rejected', o.pc + [lt(lo, hi)], le(tm.absv(hi - lo - 360), num(tm.Fraction(1, 100))))
        else:
            v.require('incomplete range raises', isinstance(o.exc, RuntimeError), repr(o.exc))
    for o in v.run(lambda: f(a, units='grad'), allow_exc=True):
        v.require('unknown units raise', isinstance(o.exc, RuntimeError), repr(o.exc))


@check.obligations('mapAngle: element by element for arrays of any length', [M + 'mapAngle'])
def _(v):
    f = v.lift(M + 'mapAngle')
    n, i = v.dim('n'), v.dim('i')
    a = v.array('a', (n,))
    hyp = [le(num(1), n), le(num(0), i), lt(i, n)]
    for o in v.run(lambda: f(a), [le(num(1), n)]):
        r, x = o.value.el((i,)), a.el((i,))
        v.prove('same length', o.pc + hyp, eq(L(o.value.shape[0]), n))
        v.prove('congruent', o.pc + hyp, congruent(r, x, TWOPI))
        v.prove('in range', o.pc + hyp, and_(le(-PI, r), le(r, PI)))


@check.obligations('angularDifference: the acute difference, symmetric', [M + 'angularDifference_opt'])
def _(v):
    f = v.lift(M + 'angularDifference')
    n, i = v.dim('n'), v.dim('i')
    a, b = v.array('a', (n,)), v.array('b', (n,))
    for units, per in (('radians', TWOPI), ('degrees', num(360, 'R'))):
        for o in v.run(lambda: (f(a, b, units=units), f(b, a, units=units)), [le(num(1), n)]):
            r, s = (y.el((i,)) for y in o.value)
            x, y = a.el((i,)), b.el((i,))
            h = o.pc + [lt(tm.absv(x - y), per)]
            v.prove(f'{units} symmetric', h, eq(r, s))
            v.prove(f'{units} between 0 and half a period', h, and_(le(num(0), r), le(r, per / 2)))
            v.prove(f'{units} congruent up to sign', h, or_(*[eq(r, e * (x - y) + k * per) for e in (1, -1) for k in (-1, 0, 1)]))


@check.obligations('scalar angle mapping used by the indexer', [IX + '_map_angle'])
def _(v):
    f = v.lift(IX + '_map_angle')
    a, lo = v.reals('a'), v.reals('lo')
    for o in v.run(lambda: f(a, lo)):
        v.prove('congruent', o.pc, congruent(o.value, a, TWOPI))
        v.prove('in range', o.pc, and_(le(lo, o.value), lt(o.value, lo + TWOPI)))


@check.obligations('arccosSafe clips round-off and rejects the rest', [M + 'arccosSafe'])
def _(v):
    f = v.lift(M + 'arccosSafe')
    a = v.reals('a')
    tol = num(tm.Fraction(100001, 100000))
    for o in v.run(lambda: f(a), allow_exc=True):
        if o.exc is not None:
            v.require('kind', isinstance(o.exc, RuntimeError), repr(o.exc))
            v.prove('raises only beyond tolerance', o.pc, lt(num(1), tm.absv(a)))
            continue
        r = o.value[0]
        v.prove('accepted', o.pc, le(tm.absv(a), tol))
        v.prove('cosine', o.pc + [le(tm.absv(a), num(1))], eq(tm.cos(r), a))
        v.prove('clipped', o.pc + [lt(num(1), a)], eq(r, num(0)))


def turn(x):
    """x reduced to [0, 2 pi)"""
    return x - TWOPI * tm.toreal(tm.floor(x / TWOPI))


@check.obligations('membership in unions of angular ranges, any number of angles', [X + 'validate_angle_ranges', 'transforms_c_api.validateAngleRanges'])
def _(v):
    f, = clift(v, 'validate_angle_ranges')
    n, k = v.dim('n'), sym('k', 'I')
    hy = [le(num(1, 'I'), n)]
    hk = hy + [le(num(0, 'I'), k), lt(k, n)]
    a = v.array('a', (n,))
    tol = L(1.5e-8)
    # any start and stop, written relative to the angle k: whole turns and the rest in [0, 1)
    al = a.el((k,))
    l, m, t, w = sym('l', 'I'), sym('m', 'I'), v.reals('t'), v.reals('w')
    s = al - TWOPI * (tm.toreal(l) + t)
    e = s + TWOPI * (tm.toreal(m) + w)
    fr = [and_(le(num(0), x), lt(x, num(1))) for x in (t, w)]
    for ccw in (True, False):
        ss, ee = (snp.array([x]) for x in ((s, e) if ccw else (e, s)))
        for o in v.run(lambda: f(a, ss, ee, ccw), hy):
            ins = or_(lt(TWOPI * w, tol), lt(TWOPI * (1 - w), tol), le(TWOPI * t, TWOPI * w + tol), le(TWOPI * (1 - t), tol))
            v.prove(f'one range, ccw={ccw}', hk + fr + o.pc, tm.iff(tm.tobool(o.value.el((k,))), ins))


def union(v, ccw):
    f, = clift(v, 'validate_angle_ranges')
    n, k = v.dim('n'), sym('k', 'I')
    hy = [le(num(1, 'I'), n)]
    hk = hy + [le(num(0, 'I'), k), lt(k, n)]
    a, s, e = v.array('a', (n,)), v.reals('s', (2,)), v.reals('e', (2,))
    for o in v.run(lambda: [f(a, x, y, ccw) for x, y in ((s, e), (s[:1], e[:1]), (s[1:], e[1:]))], hy, feas_ms=60):
        r, p, q = (tm.tobool(x.el((k,))) for x in o.value)
        v.prove(f'ccw={ccw}', hk + o.pc, tm.iff(r, or_(p, q)))


@check.obligations('a union of angular ranges is the union of the single ranges', [X + 'validate_angle_ranges', 'transforms_c_api.validateAngleRanges'])
def _(v):
    union(v, True)


@check.obligations('a union of clockwise angular ranges', [X + 'validate_angle_ranges'], thorough=True)
def _(v):
    union(v, False)


def ref_in(a, s, e, ccw):
    tp = 2 * np.pi
    if not ccw:
        s, e = e, s
    out = np.zeros(len(a), bool)
    edge = np.zeros(len(a), bool)
    for s_, e_ in zip(s, e):
        span = e_ - s_
        if abs(span - tp * round(span / tp)) < 1e-7:
            out[:] = True      # empty or full range: everything
            continue
        w = span % tp
        t = (a - s_) % tp
        out |= t <= w
        edge |= (np.abs(t - w) < 1e-6) | (t < 1e-6) | (t > tp - 1e-6)
    return out, edge


@check.runtime('membership in unions of angular ranges', [X + 'validate_angle_ranges', 'transforms_c_api.validateAngleRanges'], n=400)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    for k in t.cases():
        m = int(t.rng.integers(1, 5))
        s = t.rng.uniform(-7, 7, m)
        w = t.rng.uniform(0.01, 6.2, m)
        e = s + w
        if k % 3 == 0:
            e = e - 2 * np.pi * t.rng.integers(0, 3, m)
        if k % 17 == 0:
            e[0] = s[0] + 2 * np.pi
        a = t.rng.uniform(-12, 12, 60)
        # whole turns away from the ends
        for x in (s, e):
            y = x + 2 * np.pi * t.rng.integers(-2, 3, m)
            t.expect(np.asarray(xf.validate_angle_ranges(y, s, e)).all(), 'end points and their images a whole number of turns away are inside', ang=y, start=s, stop=e)
        for ccw in (True, False):
            ss, ee = (s, e) if ccw else (e, s)
            got = np.asarray(xf.validate_angle_ranges(a, ss, ee, ccw=ccw))
            want, edge = ref_in(a, ss, ee, ccw)
            t.expect(got.dtype == bool and got.shape == a.shape, 'boolean per angle', start=ss, stop=ee)
            bad = (got != want) & ~edge
            t.expect(not bad.any(), 'angle misclassified', ang=a[bad], start=ss, stop=ee, ccw=ccw, got=got[bad])
            # end points belong to the range
            t.expect(np.asarray(xf.validate_angle_ranges(s, ss[:1] * 0 + s[0] if False else s[:1], e[:1]))[0], 'start is inside', start=s[:1], stop=e[:1])
            t.expect(np.asarray(xf.validate_angle_ranges(e[:1], s[:1], e[:1]))[0], 'stop is inside', start=s[:1], stop=e[:1])
    t.raises(Exception, lambda: xf.validate_angle_ranges(np.r_[0.], np.r_[0., 1.], np.r_[1.]), 'mismatched ranges are rejected')


@check.runtime('wrapping on real arrays', [M + 'mapAngle', M + 'angularDifference_opt', IX + '_map_angle'], n=200)
def _(t):
    from hexrd.core import rotations as rot
    for k in t.cases():
        un, per = (('radians', 2 * np.pi), ('degrees', 360.))[k % 2]
        lo = float(t.rng.uniform(-1, 1) * per) if k % 4 else -per / 2
        a = t.rng.uniform(-3, 3, 30) * per
        a[:4] = lo, lo + per, lo + per / 2, lo - per
        rg = [lo, lo + per] if k % 3 else [lo + per, lo]
        r = rot.mapAngle(a, rg, units=un)
        t.expect(((r >= lo - 1e-9) & (r <= lo + per + 1e-9)).all(), 'inside the range', ang=a, lo=lo, got=r)
        q = (r - a) / per
        t.close(q, np.round(q), 'congruent', atol=1e-9, ang=a, lo=lo, got=r)
        b = rot.mapAngle(t.rng.uniform(-3, 3, 30) * per, units=un)
        c = rot.mapAngle(a, units=un)
        d = rot.angularDifference(b, c, units=un)
        w = np.abs(np.angle(np.exp(1j * (b - c) * 2 * np.pi / per))) * per / (2 * np.pi)
        t.close(d, w, 'acute difference', atol=1e-7, a=b, b=c)
