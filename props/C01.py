"""configuration files: access, inheritance, validation, paths"""
from .common import *
from vc import explore
import copy
import itertools
import os
import tempfile
import types
import numpy as np

check = Check('C01', assumptions=[
    'YAML reading and writing (pyyaml) gives back the plain values it was given',
    'configuration values are opaque to Config.get, Config.set and merge_dicts (exercised with every combination of missing, null, plain and section blocks down to three levels)'])
ROOT = 'hexrd.core.config.root:RootConfig'
FG = 'hexrd.hedm.config.fitgrains:FitGrainsConfig'


class Tok:
    """a plain value"""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'<{self.n}>'

    def __deepcopy__(self, memo):
        return self


A, B, C2, D2 = Tok('a'), Tok('b'), Tok('c'), Tok('d')
MISSING = object()


def trees(depth, keys, leaves):
    """every block structure down to the given depth"""
    out = [MISSING, None] + list(leaves)
    if depth:
        sub = trees(depth - 1, keys, leaves)
        for combo in itertools.product(sub, repeat=len(keys)):
            out.append({k: x for k, x in zip(keys, combo) if x is not MISSING})
    return out


def paths_of(depth):
    """(keys, data) for every state of the blocks on the way to a value"""
    for d in range(1, depth + 1):
        keys = ['find', 'omega', 'tol', 'x'][:d]
        for stop in range(d):
            for kind in ((MISSING, None) if stop < d - 1 else (MISSING, None, A)):
                inner = MISSING if kind is MISSING else kind
                for lvl in range(stop, -1, -1):
                    block = {'other': B}
                    if inner is not MISSING:
                        block[keys[lvl]] = inner
                    inner = block
                yield keys, inner


def lookup(data, keys):
    for k in keys[:-1]:
        data = data.get(k)
        if data is None:
            return MISSING
    return data.get(keys[-1], MISSING)


@check.obligations('every value is found by its key', ['hexrd.core.config.config:Config.get', 'hexrd.core.config.config:Config.set'])
def _(v):
    Cfg = v.lift('hexrd.core.config.config:Config')
    n = 0
    for keys, data in paths_of(4):
        n += 1
        key = ':'.join(keys)
        want = lookup(data, keys)
        before = copy.deepcopy(data)
        c = Cfg(data)
        tag = f'{key} in {data}'
        v.require(f'given or default {n}', c.get(key, D2) is (D2 if want is MISSING else want), tag)
        v.require(f'none is a default {n}', c.get(key, None) is (None if want is MISSING else want), tag)
        try:
            got = c.get(key)
        except RuntimeError:
            got = MISSING
        v.require(f'required value {n}', got is want, tag)
        v.require(f'reading changes nothing {n}', data == before and not c.dirty, tag)
        c.set(key, C2)
        v.require(f'set is read back {n}', c.get(key) is C2 and c.dirty, f'{tag}: {c.get(key, "lost")}')

        def minus(d, ks):
            d = copy.deepcopy(d)
            q = d
            for k in ks[:-1]:
                if q.get(k) is None:
                    q[k] = {}
                q = q[k]
            q.pop(ks[-1], None)
            return d
        v.require(f'set changes nothing else {n}', minus(data, keys) == minus(before, keys), f'{tag}: {data}')
        if want is not MISSING:
            c = Cfg(copy.deepcopy(before))
            c.set(key, want)
            v.require(f'setting the same value changes nothing {n}', c._cfg == before and not c.dirty, tag)


def merged(a, b):
    """the second block over the first: values of b, those of a where b has none or null"""
    if b is MISSING or b is None:
        return MISSING if a is MISSING and b is MISSING else (None if a is MISSING else a)
    if isinstance(b, dict):
        a = a if isinstance(a, dict) else {}
        return {k: merged(a.get(k, MISSING), b.get(k, MISSING)) for k in {**a, **b}}
    return b


@check.obligations('a document inherits the previous one (blocks of two keys, two levels)', ['hexrd.core.config.utils:merge_dicts', 'hexrd.core.config.utils:_merge_dicts'])
def _(v):
    merge = v.lift('hexrd.core.config.utils:merge_dicts')
    ta = trees(1, ['x', 'y'], [A, [1]])
    tb = trees(1, ['x', 'y'], [B])
    bad = None
    n = 0
    for p, q in itertools.product(ta, tb):
        n += 1
        a = {} if p is MISSING else {'s': copy.deepcopy(p)}
        b = {} if q is MISSING else {'s': copy.deepcopy(q)}
        a['t'] = b['u'] = {'z': C2}
        ka, kb = copy.deepcopy(a), copy.deepcopy(b)
        got = merge(a, b)
        want = merged(ka, kb)
        if got != want or a != ka or b != kb:
            bad = bad or f'{ka} updated with {kb} gives {got}, expected {want} (inputs after: {a}, {b})'
    v.require(f'all {n} pairs of one block', bad is None, bad or '')
    bad = None
    for p, q in itertools.product(trees(1, ['x'], [A]), trees(1, ['x'], [B])):
        for p2, q2 in itertools.product([MISSING, None, A, {'x': A}], [MISSING, None, B, {'y': B}]):
            a = {k: copy.deepcopy(x) for k, x in (('s', p), ('t', p2)) if x is not MISSING}
            b = {k: copy.deepcopy(x) for k, x in (('s', q), ('t', q2)) if x is not MISSING}
            ka = copy.deepcopy(a)
            got, want = merge(a, b), merged(ka, b)
            if got != want or a != ka:
                bad = bad or f'{ka} updated with {b} gives {got}, expected {want}'
    v.require('two blocks', bad is None, bad or '')
    bad = None
    for p, q in itertools.product(trees(2, ['x', 'y'], []), trees(2, ['x', 'y'], [B])[:160]):
        a = {} if p is MISSING else {'s': p}
        b = {} if q is MISSING else {'s': q}
        got, want = merge(a, b), merged(a, b)
        if got != want:
            bad = bad or f'{a} updated with {b} gives {got}, expected {want}'
    v.require('blocks in blocks', bad is None, bad or '')
    sh = {'e': A, 'w': B}
    a = {'p': sh, 'q': sh}
    got = merge(a, {'p': {'e': C2}})
    v.require('sections that are aliases of one another are updated one by one', got == {'p': {'e': C2, 'w': B}, 'q': {'e': A, 'w': B}} and a == {'p': sh, 'q': sh} and sh == {'e': A, 'w': B}, got)
    x = [1, 2]
    a = {'p': {'l': x}}
    got = merge(a, {'q': A})
    v.require('the merged blocks share nothing with the first', got['p'] is not a['p'] and got['p']['l'] is not x, '')


class Mp:
    def __init__(self, n):
        self.n = n

    def cpu_count(self):
        return self.n


@check.obligations('number of processes', [ROOT + '.multiprocessing'])
def _(v):
    n = v.dim('ncpu')
    m = v.ints('m')
    R = v.lift(ROOT, overrides={('hexrd.core.config.root', 'mp'): Mp(n)})
    h = [le(num(1, 'I'), n)]
    one = num(1, 'I')

    def clamp(x):
        return ite(lt(x, one), one, ite(lt(n, x), n, x))
    cases = {'all': ({'multiprocessing': 'all'}, n), 'half': ({'multiprocessing': 'half'}, None), 'default': ({}, clamp(n - one)),
             'other text': ({'multiprocessing': 'foo'}, clamp(n - one)), 'null': ({'multiprocessing': None}, clamp(n - one)), 'fraction': ({'multiprocessing': 1.5}, clamp(n - one)),
             'number': ({'multiprocessing': m}, ite(le(num(0, 'I'), m), clamp(m), clamp(n + m)))}
    for name, (cfg, want) in cases.items():
        for o in v.run(lambda: R(dict(cfg)).multiprocessing, h):
            val = L(o.value)
            v.prove(f'{name}: between 1 and the number of cpus', h + o.pc, and_(le(one, val), le(val, n)))
            if name == 'half':
                v.prove('half: at most half', h + o.pc, or_(eq(val, one), and_(le(val * num(2, 'I'), n), lt(n, val * num(2, 'I') + num(2, 'I')))))
            else:
                v.prove(f'{name}: value', h + o.pc, eq(val, want))
    for name, x, ok in (('number', m, or_(eq(m, num(-1, 'I')), and_(le(num(0, 'I'), m), le(m, n)))), ('all', 'all', TRUE), ('half', 'half', TRUE), ('text', 'foo', FALSE), ('null', None, FALSE)):
        def th():
            c = R({'multiprocessing': 'old'})
            try:
                c.multiprocessing = x
            except RuntimeError:
                return False, c
            return True, c
        for o in v.run(th, h):
            acc, c = o.value
            v.prove(f'set {name}: accepted exactly when valid', h + o.pc, ok if acc else not_(ok))
            if acc:
                got = c._cfg['multiprocessing']
                if isinstance(x, str):
                    v.require(f'set {name}: stored', got == x, '')
                else:
                    v.prove(f'set {name}: stored', h + o.pc, eq(L(got), L(x)))
            else:
                v.require(f'set {name}: refused values change nothing', c._cfg == {'multiprocessing': 'old'}, '')


def nest(key, val):
    for k in reversed(key.split(':')):
        val = {k: val}
    return val


def deep(*ds):
    out = {}
    for d in ds:
        for k, x in d.items():
            out[k] = deep(out.get(k, {}), x) if isinstance(x, dict) else x
    return out


FO = ['hexrd.hedm.config.findorientations:' + c for c in ('FindOrientationsConfig', 'ClusteringConfig', 'OmegaConfig', 'EtaConfig', 'SeedSearchConfig', 'OrientationMapsConfig')]


@check.obligations('options of grain fitting', ['hexrd.hedm.config.fitgrains:ToleranceConfig', FG])
def _(v):
    R = v.lift(ROOT)
    x, k = v.reals('x'), v.ints('k')
    cfg = lambda key, *val: R(nest('fit_grains:' + key, val[0]) if val else {'fit_grains': None}).fit_grains

    def const(name, th, pred):
        for o in v.run(th):
            v.require(name, pred(o.value), repr(o.value)[:200])

    def pair(name, th, val):
        for o in v.run(th):
            v.require(f'{name}: a pair', isinstance(o.value, list) and len(o.value) == 2, repr(o.value)[:200])
            v.prove(name, o.pc, and_(*[eq(L(q), L(val)) for q in o.value]))

    def exc(f):
        try:
            return f()
        except RuntimeError:
            return 'refused'
    for nm in ('eta', 'omega', 'tth'):
        pair(f'tolerance {nm}', lambda: getattr(cfg(f'tolerance:{nm}', x).tolerance, nm), x)
        pair(f'tolerance {nm}, integer', lambda: getattr(cfg(f'tolerance:{nm}', k).tolerance, nm), k)
        l = [x, k, x]
        const(f'tolerances {nm}', lambda: getattr(cfg(f'tolerance:{nm}', l).tolerance, nm), lambda r: r is l or (len(r) == 3 and all(p is q for p, q in zip(r, l))))
        const(f'tolerance {nm} must be given', lambda: exc(lambda: getattr(cfg('x', 1).tolerance, nm)), lambda r: r == 'refused')
    pair('refit', lambda: cfg('refit', x).refit, x)
    pair('refit, integer', lambda: cfg('refit', k).refit, k)
    const('refit list', lambda: cfg('refit', [x, k]).refit, lambda r: len(r) == 2 and r[0] is x and r[1] is k)
    const('no refit', lambda: (cfg('refit').refit, cfg('refit', None).refit), lambda r: r == (None, None))
    const('refit text', lambda: exc(lambda: cfg('refit', 'yes').refit), lambda r: r == 'refused')
    for q in (x, k):
        for o in v.run(lambda: exc(lambda: cfg('tth_max', q).tth_max)):
            if isinstance(o.value, str):
                v.prove('tth_max refused only if not positive', o.pc, le(L(q), num(0)))
            else:
                v.prove('tth_max', o.pc, and_(lt(num(0), L(q)), eq(L(o.value), L(q))))
    const('tth_max switches', lambda: [cfg('tth_max').tth_max, cfg('tth_max', True).tth_max, cfg('tth_max', False).tth_max, exc(lambda: cfg('tth_max', 'x').tth_max), exc(lambda: cfg('tth_max', None).tth_max)],
          lambda r: r == [True, True, False, 'refused', 'refused'])
    for nm in ('skip_on_estimate', 'fit_only'):
        const(nm, lambda: [getattr(cfg(nm), nm), getattr(cfg(nm, True), nm), getattr(cfg(nm, False), nm), exc(lambda: getattr(cfg(nm, 'foo'), nm))], lambda r: r == [False, True, False, 'refused'])
    const('defaults', lambda: (cfg('x').do_fit, cfg('x').npdiv, exc(lambda: cfg('x').threshold)), lambda r: r == (True, 2, 'refused'))
    for nm in ('do_fit', 'npdiv', 'threshold'):
        t = Tok(nm)
        const(f'{nm} as given', lambda: getattr(cfg(nm, t), nm), lambda r: r is t)


@check.obligations('options of orientation finding', FO)
def _(v):
    R = v.lift(ROOT)
    x, k = v.reals('x'), v.ints('k')

    def fo(key=None, val=None, **more):
        d = {'find_orientations': None} if key is None else nest('find_orientations:' + key, val)
        for q, y in more.items():
            d = deep(d, nest('find_orientations:' + q.replace('__', ':'), y))
        return R(d).find_orientations

    def const(name, th, pred):
        for o in v.run(th):
            v.require(name, pred(o.value), repr(o.value)[:200])

    def exc(f):
        try:
            return f()
        except RuntimeError:
            return 'refused'
    t = Tok('t')
    for sub, nm, dflt in (('', 'threshold', 1), ('', 'extract_measured_g_vectors', False), ('omega', 'tolerance', .5), ('eta', 'tolerance', .5), ('eta', 'mask', 5),
                          ('orientation_maps', 'bin_frames', 1), ('orientation_maps', 'eta_step', .25), ('orientation_maps', 'filter_maps', False), ('orientation_maps', 'threshold', 'refused'),
                          ('clustering', 'completeness', 'refused'), ('clustering', 'radius', 'refused')):
        obj = lambda c: getattr(c, sub) if sub else c
        key = f'{sub}:{nm}' if sub else nm
        const(f'{key}: default', lambda: exc(lambda: getattr(obj(fo()), nm)), lambda r: r == dflt and isinstance(r, type(dflt)))
        const(f'{key}: as given', lambda: getattr(obj(fo(key, t)), nm), lambda r: r is t)
    for nm in ('completeness', 'radius'):
        const(f'{nm} must not be null', lambda: exc(lambda: getattr(fo(f'clustering:{nm}', None).clustering, nm)), lambda r: r == 'refused')
    for a in ('dbscan', 'ort-dbscan', 'sph-dbscan', 'fclusterdata'):
        const(f'algorithm {a}', lambda: (fo('clustering:algorithm', a).clustering.algorithm, fo('clustering:algorithm', a.upper()).clustering.algorithm), lambda r: r == (a, a))
    const('algorithm', lambda: (fo().clustering.algorithm, exc(lambda: fo('clustering:algorithm', 'foo').clustering.algorithm)), lambda r: r == ('dbscan', 'refused'))
    # azimuths within `mask` of the rotation axis (+-90 degrees) are left out
    for o in v.run(lambda: fo('eta:mask', x).eta.range):
        r = rows(o.value)
        v.prove('eta range', o.pc, and_(*[eq(L(p), q) for p, q in zip([*r[0], *r[1]], [x - num(90), num(90) - x, num(90) + x, num(270) - x])]))
    const('eta range without mask', lambda: fo('eta:mask', None).eta.range, lambda r: r is None)
    # fibres
    h = [lt(num(0), x)]
    for nm, th in (('given', lambda: fo('seed_search:fiber_step', x).seed_search), ('from omega', lambda: fo('omega:tolerance', x).seed_search)):
        def both():
            s = th()
            return s.fiber_step, s.fiber_ndiv
        for o in v.run(both, h):
            st, nd = o.value
            v.prove(f'fibre step {nm}', h + o.pc, eq(L(st), x))
            d = tm.toreal(L(nd))
            v.prove(f'fibre divisions {nm}', h + o.pc, and_(le(d * x, num(360)), lt(num(360), (d + num(1)) * x)))
    const('fibre step default', lambda: fo().seed_search.fiber_step, lambda r: r == .5)
    const('seeds', lambda: [fo('seed_search:hkl_seeds', [k, 2]).seed_search.hkl_seeds, fo('seed_search:hkl_seeds', k).seed_search.hkl_seeds], lambda r: len(r[0]) == 2 and r[0][0] is k and len(r[1]) == 1 and r[1][0] is k)
    const('no seeds', lambda: exc(lambda: fo().seed_search.hkl_seeds), lambda r: r == 'refused')
    for m in ('label', 'blob_log', 'blob_dog'):
        d = {m: {'threshold': t}}
        const(f'method {m}', lambda: fo('seed_search:method', d).seed_search.method, lambda r: r == d)
    for nm, d in (('missing', MISSING), ('null', None), ('text', 'a'), ('name', 'label'), ('list', ['label']), ('two', {'label': {}, 'blob_log': {}}), ('unknown', {'foo': {}}), ('empty', {})):
        const(f'method refused: {nm}', lambda: exc(lambda: (fo() if d is MISSING else fo('seed_search:method', d)).seed_search.method), lambda r: r == 'refused')
    const('active hkls', lambda: [fo().orientation_maps.active_hkls, fo('orientation_maps:active_hkls', 'all').orientation_maps.active_hkls, fo('orientation_maps:active_hkls', None).orientation_maps.active_hkls],
          lambda r: r == [None] * 3)
    const('active hkls given', lambda: [fo('orientation_maps:active_hkls', k).orientation_maps.active_hkls, fo('orientation_maps:active_hkls', [k, 3]).orientation_maps.active_hkls],
          lambda r: len(r[0]) == 1 and r[0][0] is k and len(r[1]) == 2 and r[1][0] is k)
    y = v.reals('y')
    for o in v.run(lambda: exc(lambda: fo('omega:period', [x, y]).omega.period)):
        full = or_(eq(y - x, num(360)), eq(x - y, num(360)))
        if isinstance(o.value, str):
            v.prove('period refused only if it is not a full turn', o.pc, not_(full))
        else:
            v.prove('period', o.pc, full)


EXCL = ('dmin', 'dmax', 'tthmin', 'tthmax', 'sfacmin', 'sfacmax', 'pintmin', 'pintmax')


@check.obligations('material and reflections of a configuration', ['hexrd.core.config.utils:get_exclusion_parameters', 'hexrd.core.config.material:MaterialConfig', ROOT + '.material'])
def _(v):
    get = v.lift('hexrd.core.config.utils:get_exclusion_parameters')
    R = v.lift(ROOT)
    Cfg = v.lift('hexrd.core.config.config:Config')
    toks = {k: Tok(k) for k in EXCL}
    old = Tok('old')
    for given in [()] + [(k,) for k in EXCL] + [EXCL] + list(itertools.combinations(EXCL, 4)):
        for legacy in (False, True):
            for prefix in ('material', 'fit_grains'):
                d = {k: toks[k] for k in given}
                if legacy:
                    d['min_sfac_ratio'] = old
                want = [toks[k] if k in given else (old if legacy and k == 'sfacmin' else None) for k in EXCL]
                re, ep = get(Cfg({prefix: d, 'other': {k: 0 for k in EXCL}}), prefix)
                v.require('exclusion parameters are those given', re is True and [getattr(ep, k) for k in EXCL] == want, f'{given} {legacy} {prefix}: {ep}')
    re, ep = get(Cfg({'material': {'reset_exclusions': False}}), 'material')
    v.require('saved reflections are kept on request', re is False, '')
    v.require('no section', get(Cfg({}), 'material') == (True, tuple([None] * 8)), '')

    class Hedm:
        beam_energy = v.reals('E')

    class Ins:
        configuration, hedm = 'inst.yml', Hedm()

    class Pd:
        def __init__(self):
            self.calls = []

        def exclude(self, **k):
            self.calls.append(k)

    class Mat:
        def __init__(self):
            self.planeData = Pd()
    w = v.reals('w')
    for width, want in ((w, w), (MISSING, num(tm.Fraction(1, 4))), (None, num(tm.Fraction(1, 4)))):
        for reset in (True, False):
            d = {'material': {'active': 'ni', 'tthmax': toks['tthmax'], 'reset_exclusions': reset}}
            if width is not MISSING:
                d['material']['tth_width'] = width

            def th():
                c = R(copy.deepcopy(d))
                c.instrument = Ins()
                mats = {'ni': Mat(), 'fe': Mat()}
                m = v_mat(c)
                m.materials = mats
                c.material = m
                pd = c.material.plane_data
                e = [x.beamEnergy for x in mats.values()]
                again = c.material.plane_data
                c.set('material:active', 'fe')
                other = c.material.plane_data
                new = {'fe': Mat()}
                m.materials = new
                last = c.material.plane_data
                return mats, pd, e, again, other, new, last
            MC = v.lift('hexrd.core.config.material:MaterialConfig')
            v_mat = MC
            for o in v.run(th):
                mats, pd, e, again, other, new, last = o.value
                v.require('plane data of the active material', pd is mats['ni'].planeData and again is pd, '')
                v.require('plane data follow the active material', other is mats['fe'].planeData, '')
                v.require('plane data follow the materials', last is new['fe'].planeData, '')
                v.prove('two-theta width', o.pc, eq(L(pd.tThWidth) * num(180), tm.toreal(want) * PI))
                v.require('exclusions are reset once, only on request', [len(q.calls) for q in (pd, other, last)] == ([1, 1, 1] if reset else [0, 0, 0]), '')
                if reset:
                    v.require('exclusions as given', pd.calls[0] == {k: (toks['tthmax'] if k == 'tthmax' else None) for k in EXCL}, '')
                for q in e:
                    v.require('beam energy units', q.unit == 'keV' and q.uT == 'ENERGY', '')
                    v.prove('every material has the beam energy of the instrument', o.pc, eq(L(q.value), Hedm.beam_energy))
    x = v.reals('x')
    for o in v.run(lambda: (R({'material': {'dmin': x}}), R({}))):
        a, b = o.value
        MC = v.lift('hexrd.core.config.material:MaterialConfig')
        v.require('dmin', MC(a).dmin is x and MC(b).dmin == .5, '')


class Meta:
    def __init__(self, ims):
        self.metadata = ims[1]
        self.src = ims[0]


@check.obligations('image series by panel', [ROOT + '.image_series'])
def _(v):
    calls = []

    class Ims:
        class omega:
            OmegaImageSeries = Meta

        @staticmethod
        def open(f, fmt, **kw):
            calls.append((f, fmt, kw))
            return f, METAS[f]
    METAS = {}
    R = v.lift(ROOT, overrides={('hexrd.core.config.root', 'imageseries'): Ims})
    R.check_filename = staticmethod(lambda f, w: f'{w}/{f}')
    from hexrd.core.constants import shared_ims_key
    specs = [({'panel': 'p1'}, {}, 'p1'), ({'panel': 'p1'}, {'panel': 'q'}, 'p1'), ({'panel': ['a', 'b']}, {}, 'a_b'), ({'panel': ('a', 'b')}, {}, 'a_b'), ({'panel': None}, {'panel': 'q'}, shared_ims_key), ({}, {'panel': 'q'}, 'q'), ({}, {}, shared_ims_key)]
    wd = os.getcwd()
    for n in range(len(specs)):
        for m in range(len(specs)):
            if specs[n][2] == specs[m][2]:
                continue
            calls.clear()
            METAS.clear()
            data = []
            for j, (s, me, k) in enumerate((specs[n], specs[m])):
                METAS[f'{wd}/f{j}'] = me
                data.append({'file': f'f{j}', 'args': {'i': j}, **s})
            c = R({'working_dir': wd, 'image_series': {'format': 'fmt', 'data': data}})
            got = c.image_series
            v.require('series by panel', {k: x.src for k, x in got.items()} == {specs[n][2]: f'{wd}/f0', specs[m][2]: f'{wd}/f1'}, f'{data} {METAS}: {list(got)}')
            v.require('opened as given', calls == [(f'{wd}/f{j}', 'fmt', {'i': j}) for j in range(2)], '')
            c.image_series
            v.require('opened once', len(calls) == 2, '')


# ---------------------------------------------------------------- files
def rand_tree(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < .45:
        return [None, int(rng.integers(-5, 5)), float(rng.normal()), 'text' + str(rng.integers(9)), True, False, [1, 2.5, 'x'], [], ''][int(rng.integers(9))]
    return {f'k{j}': rand_tree(rng, depth - 1) for j in rng.permutation(4)[:rng.integers(0, 4)]}


def rand_doc(rng):
    return {f'k{j}': rand_tree(rng) for j in rng.permutation(4)[:rng.integers(0, 4)]}


@check.runtime('configuration files', ['hexrd.core.config:open', 'hexrd.core.config:save', 'hexrd.hedm.config:open', 'hexrd.hedm.config:save', 'hexrd.core.config.config:Config.dump'], n=60)
def _(t):
    import yaml
    from pathlib import Path
    from hexrd.core import config as cc
    from hexrd.hedm import config as hc
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.yml')
        for i in t.cases():
            rng = t.rng
            mod = (cc, hc)[i % 2]
            docs = [rand_doc(rng) for _ in range(int(rng.integers(1, 5)))]
            if i == 0:
                docs = [docs[0], None, {'z': 1}]
            with open(f, 'w') as fh:
                yaml.safe_dump_all(docs, fh)
            cfgs = mod.open(f)
            want = []
            for q in docs:
                q = {} if q is None else q
                want.append(q if not want else merged(want[-1], q))
            got = [c._cfg for c in cfgs]
            t.expect(got == want, 'each document inherits the previous ones', docs=docs, got=got, want=want)
            mod.save(cfgs, f)
            t.expect([c._cfg for c in mod.open(f)] == want, 'saved configurations are opened again', docs=docs, got=[c._cfg for c in mod.open(f)])
            # changes of one document are not seen by the others, and are kept when written
            j = int(rng.integers(len(cfgs)))
            depth = int(rng.integers(1, 4))
            key = [f'k{int(x)}' for x in rng.integers(0, 4, depth)]
            q = cfgs[j]._cfg
            blocked = False
            for x in key[:-1]:
                q = q.get(x) if isinstance(q, dict) else q
                blocked |= q is not None and not isinstance(q, dict)
            if not blocked:
                val = [3.25, 'new', [1, 2], None][int(rng.integers(4))]
                before = copy.deepcopy([c._cfg for c in cfgs])
                cfgs[j].set(':'.join(key), val)
                t.expect(cfgs[j].get(':'.join(key)) == val, 'a value set is kept', key=key, val=val, before=before[j])
                t.expect([c._cfg for c in cfgs[:j] + cfgs[j + 1:]] == before[:j] + before[j + 1:], 'documents are independent', key=key)
                cfgs[j].dump(f)
                t.expect(not cfgs[j].dirty and mod.open(f)[0]._cfg == cfgs[j]._cfg, 'written configuration', key=key)
            cfgs[j].working_dir = Path(d) if rng.random() < .5 else d
            t.expect(str(cfgs[j].working_dir) == d, 'working directory', got=str(cfgs[j].working_dir))
            cfgs[j].dump(f)
            t.expect(str(mod.open(f)[0].working_dir) == d, 'working directory is written')
        t.expect([c._cfg for c in cc.open()] == [{}], 'no file')
        t.raises(ValueError, lambda: cc.open(os.path.join(d, 'none.yml')), 'missing file')
        with open(f, 'w') as fh:
            fh.write('tol: &t {eta: 1, ome: 2}\nother: *t\n---\ntol: {eta: 5}\n---\nother: {ome: 7}\n')
        got = [c._cfg for c in cc.open(f)]
        t.expect(got == [{'tol': {'eta': 1, 'ome': 2}, 'other': {'eta': 1, 'ome': 2}}, {'tol': {'eta': 5, 'ome': 2}, 'other': {'eta': 1, 'ome': 2}}, {'tol': {'eta': 5, 'ome': 2}, 'other': {'eta': 1, 'ome': 7}}], 'aliased sections', got=got)


@check.runtime('paths', ['hexrd.core.config.config:Config.check_filename', 'hexrd.core.config.material:MaterialConfig.definitions', FO[0] + '.use_quaternion_grid', FG + '.estimate', FO[5] + '.file', ROOT + '.analysis_dir'], n=12)
def _(t):
    from pathlib import Path
    from hexrd.core.config.root import RootConfig
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d, tempfile.TemporaryDirectory() as e:
        os.mkdir(os.path.join(d, 'sub'))
        for name in ('x.dat', 'sub/y.dat'):
            for base in (d, e):
                if base == d or name == 'x.dat':
                    open(os.path.join(base, name), 'w').close()
        try:
            for i in t.cases():
                os.chdir(e if i % 2 else d)
                rel = ['x.dat', 'sub/y.dat', 'none.dat'][i % 3]
                ab = os.path.join(d, rel)
                exists = rel != 'none.dat'
                new = bool(t.rng.random() < .5)
                name = ['analysis', 'a/b c', 'x '][int(t.rng.integers(3))]
                for given in (rel, ab):
                    c = RootConfig({'working_dir': d, 'analysis_name': name, 'new_file_placement': new,
                                    'material': {'definitions': given, 'active': 'my mat'}, 'find_orientations': {'use_quaternion_grid': given, 'orientation_maps': {'file': given}}, 'fit_grains': {'estimate': given}})
                    same = lambda f: os.path.realpath(f) == os.path.realpath(ab)
                    if exists:
                        t.expect(same(c.check_filename(given, d)), 'file in the working directory', given=given)
                        t.expect(same(c.find_orientations.use_quaternion_grid), 'grid file', given=given)
                        t.expect(same(c.fit_grains.estimate), 'estimate', given=given)
                    else:
                        t.raises(OSError, lambda: c.check_filename(given, d), 'missing file')
                        t.raises(OSError, lambda: c.find_orientations.use_quaternion_grid, 'missing grid file')
                        t.expect(c.fit_grains.estimate is None, 'missing estimate', given=given)
                    from hexrd.core.config.material import MaterialConfig
                    if exists:
                        t.expect(same(MaterialConfig(c).definitions), 'materials file', given=given)
                    else:
                        t.raises(OSError, lambda: MaterialConfig(c).definitions, 'missing materials file')
                    c._material_config = MaterialConfig(c)
                    c._material_config._materials = {}
                    t.expect(same(c.find_orientations.orientation_maps.file), 'maps file', given=given)
                    adir = Path(d) / name
                    t.expect(c.analysis_dir == adir, 'analysis directory')
                    aid = name.strip().replace(' ', '-') + '_my-mat'
                    t.expect(c.analysis_id == aid, 'analysis id', got=c.analysis_id)
                    fo = c.find_orientations
                    w = {'maps': adir / 'eta-ome-maps-my-mat.npz' if new else Path(d) / (aid + '_eta-ome_maps.npz'),
                         'accepted': adir / 'accepted-orientations-my-mat.dat' if new else Path(d) / f'accepted_orientations_{aid}.dat',
                         'scored': adir / 'scored-orientations-my-mat.npz' if new else Path(d) / f'scored_orientations_{aid}',
                         'log': adir / 'find-orientations-my-mat.log' if new else Path(d) / f'find-orientations_{aid}.log',
                         'grains': adir / 'grains.out', 'grains2': adir / 'grains.out'}
                    c._cfg['find_orientations']['orientation_maps']['file'] = None
                    g = {'maps': fo.orientation_maps.file, 'accepted': fo.accepted_orientations_file, 'scored': fo.orientation_maps.scored_orientations_file, 'log': fo.logfile, 'grains': fo.grains_file, 'grains2': c.fit_grains.grains_file}
                    t.expect({k: Path(x) for k, x in g.items()} == w, 'output files', got={k: str(x) for k, x in g.items()}, want={k: str(x) for k, x in w.items()})
                c = RootConfig({})
                t.expect(os.path.realpath(c.working_dir) == os.path.realpath(os.getcwd()), 'default working directory')
                c = RootConfig({'working_dir': os.path.join(d, 'nowhere')})
                t.raises(OSError, lambda: c.working_dir, 'missing working directory')
        finally:
            os.chdir(cwd)


@check.runtime('arrays beside a document', ['hexrd.core.config.dumper:NumPyIncludeDumper', 'hexrd.core.config.loader:NumPyIncludeLoader'], n=15)
def _(t):
    import yaml
    from hexrd.core.config.dumper import NumPyIncludeDumper
    from hexrd.core.config.loader import NumPyIncludeLoader
    for i in t.cases():
        with tempfile.TemporaryDirectory() as d:
            rng = t.rng
            arrs = [rng.normal(size=tuple(rng.integers(1, 4, int(rng.integers(1, 4))))) for _ in range(3)]
            doc = {'a': {'b': arrs[0], 'c': 3}, 'b': arrs[1].astype(np.float32), 'l': [1, {'x': arrs[2] > 0}]}
            f = os.path.join(d, 'doc.yml')
            with open(f, 'w') as fh:
                yaml.dump(doc, stream=fh, Dumper=NumPyIncludeDumper)
            with open(f) as fh:
                got = yaml.load(fh, Loader=NumPyIncludeLoader)
            t.expect(got['a']['c'] == 3 and got['l'][0] == 1, 'plain values')
            for w, g in ((doc['a']['b'], got['a']['b']), (doc['b'], got['b']), (doc['l'][1]['x'], got['l'][1]['x'])):
                t.expect(isinstance(g, np.ndarray) and g.dtype == w.dtype and g.shape == w.shape and bool((g == w).all()), 'arrays are read back')
