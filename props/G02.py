from .common import *
from .geo import *
from .X01 import rand6, gram_n
import numpy as np

check = Check('G02', level='proof', assumptions=CASSUME)
X = 'hexrd.core.transforms.xfcapi:'


def stretch(v):
    s = np.sqrt(2)
    return np.array([[v[0], v[5] / s, v[4] / s], [v[5] / s, v[1], v[3] / s], [v[4] / s, v[3] / s, v[2]]])


@check.runtime('oscillation angles: both rotations satisfy the Bragg condition, no solution is lost', [X + 'oscill_angles_of_hkls', 'transforms_c_api.oscillAnglesOfHKLs'], n=300)
def _(t):
    from hexrd.core.transforms import xfcapi as xf
    for k in t.cases():
        n = int(t.rng.integers(1, 9))
        b, e = rand_beam(t.rng)
        if k % 4 == 0:
            b, e = np.array([0., 0, -1]), np.array([1., 0, 0])
        chi = t.rng.choice([0., t.rng.normal() * .3])
        Rc = nrot(rand_rot(t.rng))
        p = rand6(t)
        from hexrd.core.material.crystallography import latticeVectors
        B = latticeVectors(p, 'triclinic')['B']
        wl = t.rng.uniform(.1, 2.)
        V = np.r_[1 + t.rng.normal(size=3) * .02, t.rng.normal(size=3) * .02] if k % 2 else np.array([1., 1, 1, 0, 0, 0])
        h = t.rng.integers(-8, 9, size=(n, 3))
        h[~h.any(1)] = [1, 0, 0]
        kw = dict(beam_vec=b * t.rng.choice([1., 3.]), eta_vec=e * t.rng.choice([1., .2])) if k % 4 else {}
        if k % 2:
            kw['v_inv'] = V
        keep = h.copy()
        o0, o1 = xf.oscill_angles_of_hkls(h, chi, Rc, B, wl, **kw)
        t.expect((h == keep).all(), 'input modified')
        t.expect(o0.shape == o1.shape == (n, 3), 'shape')
        RB = beam_frame(b, e)
        for i in range(n):
            g = stretch(V) @ Rc @ B @ h[i]
            G = np.linalg.norm(g)
            s = wl * G / 2
            d = dict(hkl=h[i], chi=chi, rmat_c=Rc, bmat=B, wavelength=wl, v_inv=V, beam=b, eta=e, got=[o0[i], o1[i]])
            # solvable iff |c| <= sqrt(a^2 + b^2): scan-free closed form with the oscillation axis
            gh = g / G
            ax = rx_(chi)[:, 1]
            bx = b - (b @ ax) * ax          # component of the beam across the axis
            gs = rx_(chi) @ gh
            gx = gs - (gs @ ax) * ax
            amp = np.linalg.norm(bx) * np.linalg.norm(gx)
            c = -s - (b @ ax) * (gs @ ax)
            if abs(abs(c) - amp) < 1e-7 or amp < 1e-7:
                continue
            if abs(c) > amp or s > 1:
                if abs(c) > amp:
                    t.expect(np.isnan(o0[i]).all() and np.isnan(o1[i]).all(), 'unreachable reflection is nan', **d)
                continue
            t.expect(np.isfinite(o0[i]).all() and np.isfinite(o1[i]).all(), 'reachable reflection has two solutions', **d)
            t.expect(wrapped(o0[i][2], o1[i][2]) > 1e-6 or abs(abs(c) - amp) < 1e-3, 'two different solutions', **d)
            for o in (o0[i], o1[i]):
                gl = sample(chi, o[2]) @ gh
                t.close(b @ gl, -s, 'Bragg condition at the returned rotation', atol=1e-9, **d)
                t.close(o[0], 2 * np.arcsin(s), 'two-theta', atol=1e-9, **d)
                u = RB.T @ gl
                if np.hypot(u[0], u[1]) > 1e-6:
                    t.expect(wrapped(o[1], np.arctan2(u[1], u[0])) < 1e-7, 'azimuth of the diffracted beam', **d)


S2 = tm.sqrt(num(2, 'R'))


def harmonic(chi, g, b):
    """a sin(omega) + b cos(omega) = c + s : the component of the turned vector along the beam"""
    cc, sc = tm.cos(chi), tm.sin(chi)
    return (g[2] * b[0] + sc * g[0] * b[1] - cc * g[0] * b[2],
            g[0] * b[0] - sc * g[2] * b[1] + cc * g[2] * b[2],
            -cc * g[1] * b[1] - sc * g[1] * b[2])


def oscill(v, beam, stretch_):
    f, = clift(v, 'oscill_angles_of_hkls')
    n, k = v.dim('n'), sym('k', 'I')
    hy = [le(num(1, 'I'), n)]
    H = v.array('h', (n, 3))
    Rc, B = v.reals('c', (3, 3)), v.reals('m', (3, 3))
    chi, wl = v.reals('chi'), v.reals('wl')
    kw = {}
    if stretch_:
        V = kw['v_inv'] = v.reals('v', (6,))
    else:
        V = [num(1)] * 3 + [num(0)] * 3
    if beam:
        b, e = v.reals('b', (3,)), v.reals('e', (3,))
        kw.update(beam_vec=b, eta_vec=e)
        nb, ne = tm.sqrt(dot(b, b)), tm.sqrt(dot(e, e))
        bh, eh = [x / nb for x in b], [x / ne for x in e]
        y = cross(eh, bh)
        hy += [lt(L(EPS), nb), lt(L(EPS), ne), lt(tm.absv(dot(bh, eh)), 1 - L(1.5e-8))]
        # consequences, proved below: the normalised beam is not small, beam and eta are not collinear
        y2 = [eh[1] * bh[2] - bh[1] * eh[2], eh[2] * bh[0] - bh[2] * eh[0], eh[0] * bh[1] - bh[0] * eh[1]]
        hy += [lt(L(EPS), tm.sqrt(dot(bh, bh))), lt(L(EPS), tm.sqrt(dot(y, y))), lt(L(EPS), tm.sqrt(dot(y2, y2)))]
    else:
        bh, eh = [num(0), num(0), num(-1)], [num(1), num(0), num(0)]
    hk = hy + [le(num(0, 'I'), k), lt(k, n)]
    h = [at2(H, k, c) for c in range(3)]
    g = [dot(r, [dot(q, h) for q in rows(B)]) for r in rows(Rc)]
    M = [[V[0], V[5] / S2, V[4] / S2], [V[5] / S2, V[1], V[3] / S2], [V[4] / S2, V[3] / S2, V[2]]]
    t = [dot(r, g) for r in M]
    w = [dot(q, t) for q in tr(rows(Rc))]
    nn = tm.sqrt(dot(w, w))
    u = [x / nn for x in t]
    s = wl * nn / 2
    a, b_, c0 = harmonic(chi, u, bh)
    c = c0 - s
    am = tm.sqrt(a * a + b_ * b_)
    ns = lambda p, m=1: [sym(f'{p}{i}!', 'R') for i in range(m)]
    T, U, (N,), BH, EH, (A,), (Bb,), (Cc,), (S,) = ns('T', 3), ns('U', 3), ns('N'), ns('B', 3), ns('E', 3), ns('a'), ns('b'), ns('c'), ns('s')
    first = [([(t[i], T[i]) for i in range(3)], [], []), ([(nn, N)], [], []), ([(u[i], U[i]) for i in range(3)], [], [])]
    if beam:
        first.append(([(bh[i], BH[i]) for i in range(3)] + [(eh[i], EH[i]) for i in range(3)], [], []))
    first += [([(s, S)], [], []), ([(a, A), (b_, Bb), (c, Cc)], [], [])]
    for o in v.run(lambda: f(H, chi, Rc, B, wl, **kw), hy):
        r0, r1 = o.value
        v.prove('one row per reflection', hy + o.pc, and_(eq(L(r0.shape[0]), n), eq(L(r1.shape[0]), n)))
        hh = hk + o.pc + [lt(L(EPS), nn), lt(num(0), am)]
        inside, outside = hh + [le(tm.absv(c / am), num(1))], hh + [lt(num(1), tm.absv(c / am))]
        for q, r in enumerate((r0, r1)):
            for j in range(3):
                v.prove(f'solution {q}, component {j}: nan when no rotation does', outside, tm.isnan(at2(r, k, j)), generalise=first)
        om = [tm.asin(c / am) - tm.atan2(b_, a), PI - tm.asin(c / am) - tm.atan2(b_, a)]
        for q, r in enumerate((r0, r1)):
            v.prove(f'solution {q}: rotation', inside, eq(at2(r, k, 2), om[q]), generalise=first)
            v.prove(f'solution {q}: two-theta from the wave vector', inside, eq(at2(r, k, 0), 2 * tm.asin(s)), generalise=first)
            gl = [dot(z, u) for z in matmul(rx(chi), ry(om[q]))]
            y = cross(eh, bh)
            ny = tm.sqrt(dot(y, y))
            yh = [z / ny for z in y]
            xh = cross(yh, [-z for z in bh])
            v.prove(f'solution {q}: azimuth of the turned vector in the beam frame', inside, eq(at2(r, k, 1), tm.atan2(dot(yh, gl), dot(xh, gl))), generalise=first)


for _b, _s in ((0, 0), (0, 1), (1, 0), (1, 1)):
    check.obligations(f'both rotations of any number of reflections: {"any beam frame" if _b else "default frame"}, {"any stretch" if _s else "no stretch"}',
                      [X + 'oscill_angles_of_hkls', 'transforms_c_api.oscillAnglesOfHKLs'], thorough=_b != _s)(lambda v, b=_b, s=_s: oscill(v, b, s))


@check.obligations('the rotations returned satisfy the Bragg condition and no other rotation does', [X + 'oscill_angles_of_hkls'])
def _(v):
    chi, om, s = v.reals('chi'), v.reals('om'), v.reals('s')
    g, b = v.reals('g', (3,)), v.reals('b', (3,))
    A, B, C = harmonic(chi, g, b)
    gl = [dot(z, g) for z in matmul(rx(chi), ry(om))]
    v.prove('component along the beam', [], eq(dot(b, gl) + s, A * tm.sin(om) + B * tm.cos(om) - (C - s)))
    a, b_, c = v.reals('p'), v.reals('q'), v.reals('r')
    m = tm.sqrt(a * a + b_ * b_)
    hy = [lt(num(0), a * a + b_ * b_), le(tm.absv(c / m), num(1))]
    for q, w in enumerate((tm.asin(c / m) - tm.atan2(b_, a), PI - tm.asin(c / m) - tm.atan2(b_, a))):
        v.prove(f'solution {q} solves the harmonic equation', hy, eq(a * tm.sin(w) + b_ * tm.cos(w), c))
    x, y = v.reals('x'), v.reals('y')
    unit = eq(x * x + y * y, num(1))
    v.prove('none beyond the amplitude', [unit, lt(a * a + b_ * b_, c * c)], not_(eq(a * x + b_ * y, c)))
    M, h = v.reals('M'), v.reals('h')
    # every (sin, cos) on the line is one of the two: c a +- h b, c b -+ h a over M^2, h^2 = M^2 - c^2
    hy = [unit, eq(M, a * a + b_ * b_), lt(num(0), M), eq(h * h, M - c * c), eq(a * x + b_ * y, c)]
    v.prove('the sine across', hy, eq((b_ * x - a * y) * (b_ * x - a * y), h * h))
    for sg in (1, -1):
        v.prove(f'on side {sg}: sine', hy + [eq(b_ * x - a * y, sg * h)], eq(x * M, c * a + sg * h * b_))
        v.prove(f'on side {sg}: cosine', hy + [eq(b_ * x - a * y, sg * h)], eq(y * M, c * b_ - sg * h * a))
    for q, w in enumerate((tm.asin(c / m) - tm.atan2(b_, a), PI - tm.asin(c / m) - tm.atan2(b_, a))):
        h2 = [lt(num(0), a * a + b_ * b_), le(tm.absv(c / m), num(1))]
        r = tm.sqrt(1 - c / m * (c / m))
        sg = -1 if q == 0 else 1
        v.prove(f'solution {q} is on its side: sine', h2, eq(tm.sin(w), (c / m) * (a / m) + sg * r * (b_ / m)))
        v.prove(f'solution {q} is on its side: cosine', h2, eq(tm.cos(w), (c / m) * (b_ / m) - sg * r * (a / m)))
    e = v.reals('e', (3,))
    y, d = cross(e, b), v.reals('d')
    v.prove('length across two directions', [], eq(dot(y, y), dot(e, e) * dot(b, b) - dot(e, b) * dot(e, b)))
    v.prove('directions that are not collinear', [lt(tm.absv(d), 1 - L(1.5e-8))], lt(L(EPS * EPS), 1 - d * d))
    nb = tm.sqrt(dot(b, b))
    v.prove('a direction has length one', [lt(num(0), nb)], eq(sum_([x / nb * (x / nb) for x in b]), num(1)))
    t, Rc = v.reals('t', (3,)), v.reals('c', (3, 3))
    w = [dot(z, t) for z in tr(rows(Rc))]
    R = rows(Rc)
    v.prove('an orientation keeps the length', [], eq(dot(w, w), sum_([t[i] * t[j] * dot(R[i], R[j]) for i in range(3) for j in range(3)])))
