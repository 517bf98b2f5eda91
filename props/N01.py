from .common import *
import numpy as np
import itertools

check = Check('N01', assumptions=[
    'beam vector / beam angle conversions enter through their contracts (decided in D01)',
    'h5py and yaml store and return the plain values they are given (external; exercised by the bounded contract)'])
MI = 'hexrd.core.instrument.hedm_instrument'
HI = MI + ':HEDMInstrument'
DT = 'hexrd.core.instrument.detector:Detector'
PP = 'hexrd.core.instrument.physics_package'
DC = 'hexrd.core.instrument.detector_coatings'


def lifted(v):
    # the vector of two angles; the angles of a vector give the ones it was made from
    bv = lambda az, po: snp.asarray([tm.app('beam', L(az), L(po), num(k)) for k in range(3)])

    def av(b):
        x = L(snp.asarray(b).a[0])
        if x.op == 'app':
            return x.args[-3], x.args[-2]
        return tuple(tm.app(n, *[L(y) for y in snp.asarray(b).a]) for n in ('azimuth', 'polar'))
    I = v.lift(HI, overrides={(MI, 'calc_beam_vec'): bv, (MI, 'calc_angles_from_beam_vec'): av}, new=True)
    # sizes of memoization caches do not matter here (decided in U01)
    return type('Instrument', (I,), {'update_memoization_sizes': lambda self: None})


def config(v, multi, corr):
    def beam(n, dist, ec):
        d = {'energy': v.reals(n + 'E'), 'vector': {'azimuth': v.reals(n + 'az'), 'polar_angle': v.reals(n + 'po')}}
        if dist:
            d['source_distance'] = v.reals(n + 'D')
        if ec:
            d['energy_correction'] = {'axis': 'x', 'intercept': v.reals(n + 'ic'), 'slope': v.reals(n + 'sl')}
        return d
    b = {'XRS1': beam('XRS1', False, corr), 'B': beam('B', True, not corr)} if multi else beam('X', corr, corr)
    dets = {}
    for k, (n, typ) in enumerate((('a', 'planar'), ('b-1', 'cylindrical'), ('c', None))):
        d = {'pixels': {'rows': 10 + k, 'columns': 20 + k, 'size': [v.reals(n + 'ps0'), v.reals(n + 'ps1')]},
             'transform': {'tilt': [v.reals(n + f'tilt{j}') for j in range(3)], 'translation': [v.reals(n + f't{j}') for j in range(3)]},
             'saturation_level': v.reals(n + 'sat')}
        if typ:
            d['detector_type'] = typ
        if typ == 'cylindrical':
            d['radius'] = v.reals(n + 'rad')
            d['pixels']['roi'] = [3, 5]
        if k:
            d['group'] = 'g'
        d['buffer'] = [None, [v.reals(n + 'b0'), v.reals(n + 'b1')], 'name'][k]
        dets[n] = d
    return {'id': 'my', 'beam': b, 'detectors': dets, 'oscillation_stage': {'chi': v.reals('chi'), 'translation': [v.reals(f's{j}') for j in range(3)]}}


def tree(x):
    """nested dictionaries with lists and arrays as tuples"""
    if isinstance(x, dict):
        return {k: tree(y) for k, y in x.items()}
    if isinstance(x, snp.ndarray):
        return tuple(x.a.ravel().tolist())
    if isinstance(x, np.ndarray):
        return tuple(x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return tuple(tree(y) for y in x)
    return x


def same_tree(v, name, hyp, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        v.require(name + ' keys', set(a) == set(b), str(set(a) ^ set(b)))
        for k in a:
            if k in b:
                same_tree(v, f'{name}.{k}', hyp, a[k], b[k])
    elif isinstance(a, tuple) and isinstance(b, tuple):
        v.require(name + ' length', len(a) == len(b), f'{len(a)} {len(b)}')
        for k, (x, y) in enumerate(zip(a, b)):
            same_tree(v, f'{name}[{k}]', hyp, x, y)
    elif a is None or b is None or isinstance(a, str) or isinstance(b, str):
        v.require(name, a == b, f'{a} {b}')
    else:
        v.prove(name, hyp, eq(L(a), L(b)))


@check.obligations('an instrument is the configuration it is built from, and writes that configuration', [HI + '.__init__', HI + '.write_config', DT + '.__init__', DT + '.config_dict'])
def _(v):
    I = lifted(v)
    for multi, corr, style in itertools.product((False, True), (False, True), ('yaml', 'hdf5')):
        nm = f'{style} multi={multi} corr={corr} '

        def go():
            cfg = config(v, multi, corr)
            i = I(cfg)
            out = i.write_config(style=style)
            j = I(out)
            return cfg, i, out, j
        for o in v.run(go):
            cfg, i, out, j = o.value
            want = tree(cfg)
            for d in want['detectors'].values():
                d.setdefault('detector_type', 'planar')
            same_tree(v, nm + 'written', o.pc, tree(out), want)
            for k, x in (('first', i), ('second', j)):
                v.require(nm + k + ' panels in order', list(x.detectors) == list(cfg['detectors']), '')
                v.require(nm + k + ' active beam is the first', x.active_beam_name == ('XRS1'), str(x.active_beam_name))
                for n, p in x.detectors.items():
                    c = cfg['detectors'][n]
                    g = dict(rows=p.rows, cols=p.cols, pr=p.pixel_size_row, pc=p.pixel_size_col, t=tree(p.tvec), tilt=tree(p.tilt), sat=p.saturation_level, type=p.detector_type, group=p.group,
                             roi=tree(p.roi), buf=tree(p.panel_buffer), name=p.name)
                    if p.detector_type == 'cylindrical':
                        g['radius'] = p.radius
                    w = dict(rows=c['pixels']['rows'], cols=c['pixels']['columns'], pr=c['pixels']['size'][0], pc=c['pixels']['size'][1], t=tree(c['transform']['translation']), tilt=tree(c['transform']['tilt']),
                             sat=c['saturation_level'], type=c.get('detector_type', 'planar'), group=c.get('group'), buf=tree(c['buffer']), name=n,
                             roi=((3, 3 + p.rows), (5, 5 + p.cols)) if 'roi' in c['pixels'] else None)
                    if 'radius' in c:
                        w['radius'] = c['radius']
                    same_tree(v, nm + f'{k} panel {n}', o.pc, g, w)


def beam_state(i):
    return {b: dict(energy=d['energy'], vector=tree(d['vector']), distance=d['distance'], ec=tree(d['energy_correction'])) for b, d in i.beam_dict.items()}


@check.obligations('beams: read from the configuration, and every change of the beam in use reaches every panel and no other beam', [
    HI + '.__init__', HI + '.beam_energy', HI + '.beam_vector', HI + '.source_distance', HI + '.energy_correction', HI + '.active_beam_name', HI + '.beam_dict_modified', HI + '.eta_vector', HI + '.xrs_beam_energy',
    DT + '.bvec', DT + '.xrs_dist', DT + '.evec'])
def _(v):
    I = lifted(v)
    x = v.reals('x')
    u = v.reals('u', (3,))
    unit = eq(dot(list(u.a), list(u.a)), num(1))
    ec = {'axis': 'y', 'intercept': x, 'slope': x}

    def angles(i):
        i.beam_vector = [x, sym('y')]

    def vector(i):
        i.beam_vector = u

    def energy(i):
        i.beam_energy = x

    def distance(i):
        i.source_distance = x

    def correction(i):
        i.energy_correction = dict(ec)

    def no_correction(i):
        i.energy_correction = None

    def switch(i):
        i.active_beam_name = i.beam_names[-1]

    def eta(i):
        i.eta_vector = u

    for multi, first in ((False, 0), (True, 0), (True, 1)):
        for act in (None, angles, vector, energy, distance, correction, no_correction, switch, eta):
            nm = f'multi={multi} active={first} {act.__name__ if act else "initial"} '

            def go():
                cfg = config(v, multi, True)
                names = list(cfg['beam']) if multi else ['XRS1']
                i = I(cfg, active_beam_name=names[first]) if first else I(cfg)
                before = beam_state(i)
                if act:
                    act(i)
                return cfg, i, before, names
            cfg0 = config(v, multi, True)
            ang = [(d['vector']['azimuth'], d['vector']['polar_angle']) for d in (cfg0['beam'].values() if multi else [cfg0['beam']])] + [(x, sym('y'))]
            hy = [unit] + [eq(sum_([(lambda b: b * b)(tm.app('beam', a, b_, num(k))) for k in range(3)]), num(1)) for a, b_ in ang]
            for o in v.run(go, hy):
                cfg, i, before, names = o.value
                h = o.pc + hy
                cb = cfg['beam'] if multi else {'XRS1': cfg['beam']}
                want = {}
                for b, d in cb.items():
                    want[b] = dict(energy=d['energy'], vector=tuple(tm.app('beam', d['vector']['azimuth'], d['vector']['polar_angle'], num(k)) for k in range(3)), distance=d.get('source_distance', np.inf), ec=tree(d.get('energy_correction')))
                a = names[first]
                if act is angles:
                    want[a]['vector'] = tuple(tm.app('beam', x, sym('y'), num(k)) for k in range(3))
                elif act is vector:
                    want[a]['vector'] = tuple(u.a)
                elif act is energy:
                    want[a]['energy'] = x
                elif act is distance:
                    want[a]['distance'] = x
                elif act is correction:
                    want[a]['ec'] = tree(ec)
                elif act is no_correction:
                    want[a]['ec'] = None
                elif act is switch:
                    a = names[-1]
                got = beam_state(i)
                for st, w in ((got, want),):
                    for b in w:
                        if w[b]['distance'] is np.inf:
                            v.require(nm + b + ' infinite distance', st[b].pop('distance') == np.inf, '')
                            w[b].pop('distance')
                    same_tree(v, nm + 'beams', h, st, w)
                v.require(nm + 'active', i.active_beam_name == a, str(i.active_beam_name))
                v.prove(nm + 'energy in use', h, and_(eq(i.beam_energy, want[a]['energy']), *[eq(i.xrs_beam_energy(b), want[b]['energy']) for b in want], eq(i.xrs_beam_energy(None), want[a]['energy'])))
                for n, p in i.detectors.items():
                    v.eq_arrays(nm + n + ' beam of the panel', h, p.bvec, snp.asarray(list(want[a]['vector'])))
                    if 'distance' in want[a]:
                        v.prove(nm + n + ' source distance of the panel', h, eq(p.xrs_dist, want[a]['distance']))
                    else:
                        v.require(nm + n + ' infinite source distance of the panel', p.xrs_dist == np.inf, '')
                    if act is eta:
                        v.eq_arrays(nm + n + ' azimuth reference of the panel', h, p.evec, u)
                if act is eta:
                    v.eq_arrays(nm + 'azimuth reference', h, i.eta_vector, u)
    # what cannot be a beam is refused
    bad = {
        'vector that is no unit vector': (lambda i: setattr(i, 'beam_vector', u), not_(eq(dot(list(u.a), list(u.a)), num(1)))),
        'vector of four': (lambda i: setattr(i, 'beam_vector', [x] * 4), TRUE), 'unknown beam': (lambda i: setattr(i, 'active_beam_name', 'nope'), TRUE),
        'energy correction without slope': (lambda i: setattr(i, 'energy_correction', {'axis': 'y', 'intercept': x}), TRUE), 'eta vector of two': (lambda i: setattr(i, 'eta_vector', [x, x]), TRUE)}
    for name, (f, hy) in bad.items():
        def go():
            i = I(config(v, True, True))
            b = beam_state(i)
            f(i)
            return i, b
        for o in v.run(go, [], allow_exc=True):
            if o.exc is None:
                # accepted: only what is valid within rounding
                if hy is TRUE:
                    v.fail(name + ' is refused', 'accepted')
                else:
                    e = dot(list(u.a), list(u.a))
                    v.prove(name + ' is refused', o.pc, and_(lt(tm.absv(e - 1), num(tm.Fraction(1, 10 ** 12)))))
            else:
                v.require(name + ' is refused', isinstance(o.exc, ValueError), repr(o.exc))


class Inst:
    def __init__(self, **k):
        self.__dict__.update(k)


@check.obligations('tiles of a chunked panel: every pixel stays where it was in the laboratory', [MI + ':generate_chunks', MI + ':chunk_instrument', DT + '.pixelToCart', DT + '.config_dict'])
def _(v):
    from .D01 import panel, xy_of
    f = v.lift(MI + ':chunk_instrument')
    d, hy = panel(v, _roi=None, _tilt=v.reals('tilt', (3,)), _saturation_level=v.reals('sat'), group='g')
    R = v.reals('r', (3, 3))
    cls = type('P', (type(d),), {'rmat': property(lambda s: R)})
    d.__class__ = cls
    r0, c0, h_, w_, i, j = (v.ints(n) for n in ('r0', 'c0', 'h', 'w', 'i', 'j'))
    inst = Inst(chi=v.reals('chi'), tvec=v.reals('s', (3,)), detectors={'p': d}, write_config=lambda: {'beam': 'B', 'oscillation_stage': 'S', 'detectors': None, 'id': 1})
    d._rows, d._cols = sym('rows', 'I'), sym('cols', 'I')
    for use_roi in (False, True):
        def go():
            rect = snp.asarray([[r0, r0 + h_], [c0, c0 + w_]])
            return f(inst, [rect, rect], ['0_0', 'x'], use_roi=use_roi)
        for o in v.run(go, hy):
            c = o.value
            v.require('beam and stage kept', c['beam'] == 'B' and c['oscillation_stage'] == 'S', '')
            v.require('one panel per tile', list(c['detectors']) == ['p_0_0', 'p_x'], str(list(c['detectors'])))
            for n in ('p_0_0', 'p_x'):
                t = c['detectors'][n]
                v.prove('shape', o.pc + hy, and_(eq(t['pixels']['rows'], h_), eq(t['pixels']['columns'], w_)))
                if use_roi:
                    v.prove('region of the images', o.pc + hy, and_(eq(t['pixels']['roi'][0], r0), eq(t['pixels']['roi'][1], c0)))
                else:
                    v.require('no region', 'roi' not in t['pixels'], '')
                same_tree(v, 'tilt', o.pc + hy, tree(t['transform']['tilt']), tree(d._tilt))
                same_tree(v, 'pitch', o.pc + hy, tree(t['pixels']['size']), (d._pixel_size_row, d._pixel_size_col))
                small = Inst(_rows=h_, _cols=w_, _pixel_size_row=d._pixel_size_row, _pixel_size_col=d._pixel_size_col)
                a, b = xy_of(small, i, j), xy_of(d, i + r0, j + c0)
                lab = lambda xy, tv: [dot([R.a[k, 0], R.a[k, 1]], xy) + tv[k] for k in range(3)]
                v.eq_arrays('lab position of a pixel', o.pc + hy, snp.asarray(lab(a, t['transform']['translation'])), snp.asarray(lab(b, list(d._tvec.a))))
    g = v.lift(MI + ':generate_chunks')
    br, bc, gr, gc = (v.ints(n) for n in ('br', 'bc', 'gr', 'gc'))
    for o in v.run(lambda: g(2, 3, br, bc, gr, gc)):
        rects, labels = o.value
        v.require('labels', list(labels) == [f'{a}_{b}' for a in range(2) for b in range(3)], str(labels))
        for k, r in enumerate(rects):
            a, b = divmod(k, 3)
            v.eq_arrays(f'tile {k}', o.pc, r, snp.asarray([[a * (br + gr), a * (br + gr) + br], [b * (bc + gc), b * (bc + gc) + bc]]))


@check.runtime('real instruments: configuration files read back', [HI + '.write_config', HI + '.__init__', 'hexrd.core.utils.hdf5:unwrap_dict_to_h5', 'hexrd.core.utils.hdf5:unwrap_h5_to_dict'], n=30, thorough=300)
def _(t):
    import copy
    import os
    import tempfile
    import h5py
    import yaml
    from hexrd.core.instrument import HEDMInstrument
    from .inst import rand_config, state, same
    with tempfile.TemporaryDirectory() as tmp:
        for it in t.cases():
            cfg = rand_config(t.rng, ints=it % 3 == 0)
            for d in cfg['detectors'].values():
                x = t.rng.random()
                if x < .2:
                    d['pixels']['roi'] = [int(y) for y in t.rng.integers(0, 50, 2)]
                elif x < .4:
                    d['buffer'] = t.rng.random((d['pixels']['rows'], d['pixels']['columns'])) < .8
                elif x < .5:
                    d['buffer'] = float(t.rng.uniform(.1, 2))
            if it % 4 == 1:
                b = cfg['beam'] if 'energy' in cfg['beam'] else next(iter(cfg['beam'].values()))
                b['source_distance'] = int(t.rng.integers(10, 3000))
            if it % 7 == 2:
                next(iter(cfg['detectors'].values()))['saturation_level'] = None
            keep = copy.deepcopy(cfg)
            i = HEDMInstrument(cfg)
            s = state(i)
            arrays = [n for n, p in i.detectors.items() if np.ndim(p.panel_buffer) == 2 and not isinstance(p.panel_buffer, str)]
            for style in ('yaml', 'hdf5'):
                fn = os.path.join(tmp, f'x{it}.{style}')
                i.write_config(fn, style=style)
                same(t, state(i), s, f'writing {style} leaves the instrument alone', 0, config=keep)
                if style == 'yaml':
                    with open(fn) as f:
                        j = HEDMInstrument(yaml.safe_load(f))
                else:
                    with h5py.File(fn, 'r') as f:
                        j = HEDMInstrument(f)
                # array masks cannot be written to yaml (documented); a missing level has no HDF5 value
                skip = [n + ' buffer' for n in arrays] if style == 'yaml' else [n + ' sat' for n, p in i.detectors.items() if p.saturation_level is None]
                if i.has_multi_beam:
                    # which beam is in use is not part of the configuration
                    j.active_beam_name = i.active_beam_name
                same(t, state(j), s, f'read back from {style}', 1e-12, skip=skip, config=keep)
                t.expect(list(j.detectors) == list(i.detectors) or sorted(j.detectors) == sorted(i.detectors), 'panels')
                j.beam_energy = 44.0
                j.beam_vector = (80., 91.)
                for p in j.detectors.values():
                    t.close(p.bvec, j.beam_vector, 'panels follow the beam after reading', rtol=0, atol=1e-15)
                    t.expect(p.xrs_dist == j.source_distance, 'source distance of the panels', got=p.xrs_dist)
            grp = {p.group for p in i.detectors.values() if p.group}
            t.expect(set(i.detector_groups) == grp and len(i.detector_groups) == len(grp), 'groups')
            for g in grp:
                t.expect(set(i.detectors_in_group(g)) == {n for n, p in i.detectors.items() if p.group == g}, 'panels of a group')
        d = HEDMInstrument()
        out = d.write_config()
        same(t, {k: x for k, x in state(HEDMInstrument(out)).items()}, state(d), 'the default instrument', 1e-12)
        for bad in ('json', ''):
            t.raises(ValueError, lambda: d.write_config(style=bad), 'unknown styles are refused')


@check.runtime('real instruments: chunked panels and shared images', [MI + ':chunk_instrument', MI + ':_parse_imgser_dict'], n=20, thorough=150)
def _(t):
    from hexrd.core.instrument import HEDMInstrument
    from hexrd.core.instrument import hedm_instrument as hi
    from hexrd.core.imageseries.omega import OmegaImageSeries
    from hexrd.core import imageseries
    from .inst import rand_config
    for it in t.cases():
        cfg = rand_config(t.rng, n=1, multi=False, cyl=False, dist=False)
        (name, d), = cfg['detectors'].items()
        nr, nc, br, bc, gr, gc = (int(x) for x in (t.rng.integers(1, 4), t.rng.integers(1, 4), t.rng.integers(1, 8), t.rng.integers(1, 8), t.rng.integers(0, 3), t.rng.integers(0, 3)))
        d['pixels']['rows'], d['pixels']['columns'] = nr * br + (nr - 1) * gr, nc * bc + (nc - 1) * gc
        mask = None
        if it % 2:
            mask = d['buffer'] = t.rng.random((d['pixels']['rows'], d['pixels']['columns'])) < .7
        else:
            d.pop('buffer', None)
        i = HEDMInstrument(cfg)
        p = i.detectors[name]
        rects, labels = hi.generate_chunks(nr, nc, br, bc, gr, gc)
        j = HEDMInstrument(hi.chunk_instrument(i, rects, labels, use_roi=True))
        t.expect(len(j.detectors) == nr * nc, 'number of tiles')
        img = t.rng.random((3,) + p.shape)
        ims = imageseries.open(None, 'array', data=img, meta={'omega': np.array([[0., 1], [1, 2], [2, 3]])})
        for (n, q), r in zip(j.detectors.items(), rects):
            ij = np.array([[0, 0], [q.rows - 1, q.cols - 1], [0, q.cols - 1], t.rng.uniform(0, 5, 2)])
            a = q.pixelToCart(ij) @ q.rmat[:, :2].T + q.tvec
            b = p.pixelToCart(ij + r[:, 0]) @ p.rmat[:, :2].T + p.tvec
            t.close(a, b, 'lab position of the pixels of a tile', rtol=1e-11, atol=1e-9, tile=n, rects=str(r.tolist()))
            if mask is not None:
                t.expect(np.array_equal(q.panel_buffer, mask[r[0, 0]:r[0, 1], r[1, 0]:r[1, 1]]), 'mask of a tile', tile=n)
            for key, src in ((hi.multi_ims_key, img), (hi.multi_ims_key, img[0]), (hi.multi_ims_key, OmegaImageSeries(ims)), ('grp', img), (n, img)):
                got = hi._parse_imgser_dict({key: src}, n, roi=q.roi, group='grp')
                full = img[0] if getattr(src, 'ndim', 3) == 2 else img
                want = full if key == n else full[..., r[0, 0]:r[0, 1], r[1, 0]:r[1, 1]]
                g = got if isinstance(got, np.ndarray) else np.array([got[k] for k in range(len(got))])
                t.expect(g.shape == want.shape and np.array_equal(g, want), 'images of a tile', tile=n, key=key)
                if isinstance(src, OmegaImageSeries):
                    t.expect(isinstance(got, OmegaImageSeries) and np.array_equal(got.omega, ims.metadata['omega']), 'omegas of a tile')
            t.raises(RuntimeError, lambda: hi._parse_imgser_dict({'other': img}, n, roi=q.roi, group='grp'), 'missing images are reported')
            t.raises(RuntimeError, lambda: hi._parse_imgser_dict({hi.multi_ims_key: img}, n, roi=None), 'shared images need a region')


@check.runtime('physics packages and detector layers: written values read back, derived lengths follow', [PP + ':AbstractPhysicsPackage', PP + ':HEDPhysicsPackage', PP + ':HEDMPhysicsPackage', DC + ':AbstractLayer', DC + ':Phosphor'], n=40, thorough=300)
def _(t):
    from hexrd.core.instrument import physics_package as pp
    from hexrd.core.instrument import detector_coatings as dc
    from hexrd.core.material.utils import calculate_linear_absorption_length, calculate_energy_absorption_length
    import copy
    for it in t.cases():
        C = pp.HEDPhysicsPackage if it % 2 else pp.HEDMPhysicsPackage
        a = C()
        vals = {}
        for k in a.attributes_to_serialize:
            if k.endswith(('density', 'thickness', 'diameter')):
                vals[k] = float(t.rng.uniform(.1, 30))
            elif k.endswith('material'):
                vals[k] = str(t.rng.choice(['Fe', 'Ta', 'Si']))
            elif k.endswith('formula'):
                vals[k] = [None, 'CeO2', 'Al2O3'][int(t.rng.integers(3))]
            elif k.endswith('geometry'):
                vals[k] = 'cylinder'
        a = C(**vals)
        t.expect(a.type == ('HED' if it % 2 else 'HEDM'), 'type')
        s = a.serialize()
        t.expect(all(s[k] == x for k, x in vals.items()), 'serialized values', got=str(s), want=str(vals))
        b = C()
        b.deserialize(**s)
        t.expect(b.serialize() == s, 'read back', got=str(b.serialize()), want=str(s))
        c = copy.deepcopy(b)
        k = str(t.rng.choice([x for x in vals if x.endswith('thickness')]))
        setattr(b, k, vals[k] + 1)
        t.expect(getattr(b, k) == vals[k] + 1 and getattr(c, k) == vals[k] and all(getattr(b, x) == y for x, y in vals.items() if x != k), 'one value changes')
        if it % 2:
            L_ = a.LAYER_TYPES
            for n, l in enumerate(L_[:-1]):
                t.close(a.layer_standoff(l), sum(vals[m + '_thickness'] for m in L_[n + 1:-1]), 'standoff: the layers between it and the pinhole', rtol=1e-12, atol=0, layer=l)
                t.close(a.layer_thickness(l), vals[l + '_thickness'], 'thickness of a layer', rtol=0, atol=0)
                E = t.rng.uniform(5, 40, 3)
                w = calculate_linear_absorption_length(vals[l + '_density'], vals[l + '_formula'] or vals[l + '_material'], E)
                t.close(getattr(a, l + '_absorption_length')(E), w, 'absorption length of a layer', rtol=1e-12, atol=0, layer=l)
                t.close(a.absorption_length(list(E), l), w, 'absorption length for a list', rtol=1e-12, atol=0)
                t.close(a.absorption_length(float(E[0]), l), w[0], 'absorption length for one energy', rtol=1e-12, atol=0)
            t.close(a.pinhole_radius, vals['pinhole_diameter'] / 2, 'radius of the pinhole', rtol=1e-15, atol=0)
            a.pinhole_radius = 3.5
            t.close(a.pinhole_diameter, 7., 'diameter of the pinhole', rtol=1e-15, atol=0)
            t.close(a.serialize()['pinhole_diameter'], 7., 'written diameter', rtol=1e-15, atol=0)
        else:
            t.close(a.sample_diameter, vals['sample_thickness'], 'diameter of a cylinder', rtol=0, atol=0)
        kw = dict(material='Fe', density=float(t.rng.uniform(1, 9)), thickness=float(t.rng.uniform(0, 9)), formula=[None, 'BaFBr'][int(t.rng.integers(2))], readout_length=float(t.rng.uniform(1, 300)), pre_U0=float(t.rng.uniform(.1, 2)))
        for D in (dc.Filter, dc.Coating, dc.Phosphor):
            x = D(**kw)
            s = x.serialize()
            t.expect(set(s) == set(x.attributes_to_serialize) and all(s[q] == kw[q] for q in s), 'layer written', got=str(s), want=str(kw))
            y = D(**{q: None for q in kw})
            t.expect(y.density == 0 and y.thickness == 0, 'empty layer')
            y.deserialize(**s)
            t.expect(y.serialize() == s, 'layer read back', got=str(y.serialize()))
            E = t.rng.uniform(5, 40, 3)
            t.close(y.absorption_length(E), calculate_linear_absorption_length(kw['density'], kw['formula'] or 'Fe', E), 'absorption length of a detector layer', rtol=1e-12, atol=0)
            t.close(y.energy_absorption_length(E), calculate_energy_absorption_length(kw['density'], kw['formula'] or 'Fe', E), 'energy absorption length of a detector layer', rtol=1e-12, atol=0)


@check.obligations('energy gradient of the beam: the wavelength at a grain is that of the energy at its position', ['hexrd.hedm.xrdutil.utils:apply_correction_to_wavelength'])
def _(v):
    f = v.lift('hexrd.hedm.xrdutil.utils:apply_correction_to_wavelength')
    lam, ic, sl = v.reals('lam'), v.reals('ic'), v.reals('sl')
    ts, tc = v.reals('ts', (3,)), v.reals('tc', (3,))
    from hexrd.core import constants
    c = L(constants.keVToAngstrom(1))
    for k, a in enumerate('xy'):
        pos = tc.a[k] + ts.a[k] - ic
        E = c / lam + pos * sl / 1000
        hy = [lt(num(0), lam), lt(num(0), E)]
        for o in v.run(lambda: f(lam, {'axis': a, 'intercept': ic, 'slope': sl}, ts, tc), hy):
            v.prove(f'energy at the grain along {a}', hy + o.pc, eq(L(o.value) * E, c))
    for none in (None, {}):
        for o in v.run(lambda: f(lam, none, ts, tc)):
            v.prove('without a gradient nothing changes', o.pc, eq(o.value, lam))
