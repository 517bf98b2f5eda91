"""random instruments for the concrete checks"""
import numpy as np


def rand_config(rng, n=None, multi=None, ints=False, groups=('g-1', 'h', None), dist=True, cyl=True, tilt=None):
    n = n or int(rng.integers(1, 4))
    multi = bool(rng.random() < 0.35) if multi is None else multi

    def beam():
        pol = float(rng.choice([90., rng.uniform(5, 175), 90 + rng.normal() * .1]))
        d = {'energy': float(rng.uniform(5, 120)), 'vector': {'azimuth': float(rng.choice([90., rng.uniform(0, 360)])), 'polar_angle': pol}}
        if rng.random() < .5:
            d['source_distance'] = float(rng.uniform(20, 3000))
        if rng.random() < .4:
            d['energy_correction'] = {'axis': str(rng.choice(['x', 'y'])), 'intercept': float(rng.normal()), 'slope': float(rng.normal() * 1e-3)}
        return d
    names = ['XRS1'] if not multi else list(rng.permutation(['XRS1', 'XRS2', 'b-3'])[:rng.integers(2, 4)])
    names = [str(x) for x in names]
    dets = {}
    pool = [str(x) for x in rng.permutation(['GE1', 'XGE1', 'GE-2', 'IP_2', 'A', 'BA'])[:n]]
    for k in pool:
        mag = float(rng.choice([0., 1e-3, .3, 3., np.pi - 1e-3])) if tilt is None else tilt
        ax = rng.normal(size=3)
        t = rng.normal(size=3) * [30, 30, 10] - [0, 0, 500]
        d = {
            'pixels': {'rows': int(rng.integers(3, 40)), 'columns': int(rng.integers(3, 40)), 'size': [float(x) for x in rng.uniform(.05, .3, 2)]},
            'transform': {'tilt': [float(x) for x in mag * ax / np.linalg.norm(ax)], 'translation': [int(x) for x in t] if ints else [float(x) for x in t]},
            'saturation_level': float(rng.integers(1000, 60000)),
        }
        if rng.random() < .4:
            d['buffer'] = [float(x) for x in rng.uniform(0, .3, 2)]
        g = groups[int(rng.integers(len(groups)))]
        if g is not None:
            d['group'] = g
        if dist and rng.random() < .5:
            fn, m = (('GE_41RT', 6), ('Dexela_2923', 8), ('Dexela_2923_quad', 6))[int(rng.integers(3))]
            d['distortion'] = {'function_name': fn, 'parameters': [float(x) for x in rng.normal(size=m) * 1e-3 + (2. if fn == 'GE_41RT' else 0)]}
        if cyl and rng.random() < .3:
            d['detector_type'] = 'cylindrical'
            d['radius'] = float(rng.uniform(30, 90))
        dets[k] = d
    cfg = {'beam': {'energy': 0} if False else (beam() if not multi else {b: beam() for b in names}),
           'detectors': dets,
           'oscillation_stage': {'chi': float(rng.normal() * .3), 'translation': [int(x) for x in rng.integers(-3, 4, 3)] if ints else [float(x) for x in rng.normal(size=3)]},
           'id': 'inst'}
    return cfg


def state(i, R=True):
    """everything observable of an instrument, as nested plain values"""
    out = {'chi': float(i.chi), 'tvec': np.asarray(i.tvec, float), 'active': i.active_beam_name}
    for b, d in i.beam_dict.items():
        for k, x in d.items():
            if isinstance(x, dict):
                for kk, y in x.items():
                    out[f'beam {b} {k} {kk}'] = y
            else:
                out[f'beam {b} {k}'] = x
    for n, p in i.detectors.items():
        o = {'type': p.detector_type, 'rows': p.rows, 'cols': p.cols, 'pr': p.pixel_size_row, 'pc': p.pixel_size_col, 'rmat': np.asarray(p.rmat), 'tvec': np.asarray(p.tvec, float),
             'bvec': np.asarray(p.bvec), 'xrs': p.xrs_dist, 'group': p.group, 'sat': p.saturation_level, 'roi': p.roi,
             'distortion': None if p.distortion is None else (p.distortion.maptype), 'dparams': None if p.distortion is None else np.asarray(p.distortion.params, float)}
        b = p.panel_buffer
        o['buffer'] = b if b is None or isinstance(b, str) else np.asarray(b)
        if hasattr(p, 'radius'):
            o['radius'] = p.radius
        for k, x in o.items():
            out[f'{n} {k}'] = x
    return out


def same(t, a, b, msg, tol=1e-9, skip=(), **data):
    t.expect(set(a) == set(b), msg + ': same entries', diff=str(set(a) ^ set(b)), **data)
    for k in a:
        if k not in b or k in skip:
            continue
        x, y = a[k], b[k]
        if isinstance(x, (int, float, np.ndarray, np.number)) and not isinstance(x, bool) and isinstance(y, (int, float, np.ndarray, np.number)):
            x, y = np.asarray(x, float), np.asarray(y, float)
            t.expect(x.shape == y.shape and bool(np.all((np.abs(x - y) <= tol * (1 + np.abs(y))) | (x == y))), f'{msg}: {k}', got=x, want=y, **data)
        else:
            t.expect(type(x) == type(y) and bool(np.all(x == y)), f'{msg}: {k}', got=str(x), want=str(y), **data)
