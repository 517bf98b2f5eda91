from .common import *
from vc import explore
from .D01 import panel
from .G04 import rand_cyl
import itertools
import os
import tempfile
import numpy as np

check = Check('U01', assumptions=[
    'two argument lists get the same cache key only when they are the same (contract of _make_hashable: exercised by the bounded contract; 128-bit content hashes of different arrays are taken to differ)',
    'memoized functions are functions of their arguments (no hidden state)'])
D = 'hexrd.core.utils.decorators:'
MOD = 'hexrd.core.utils.decorators'


class Val:
    def __init__(self, key):
        self.key = key


class Ghost:
    """any cache state that satisfies the invariant `every stored value is the value of the function for its key`"""
    made = []

    def __init__(self):
        self.n = num(0, 'I')
        self.arbitrary = False
        self.stored, self.popped, self.bad, self.k = {}, 0, [], 0
        Ghost.made.append(self)

    def havoc(self, n):
        self.arbitrary, self.n = True, n

    def __contains__(self, key):
        if key in self.stored:
            return True
        return self.arbitrary and bool(sym('present', 'B'))

    def __len__(self):
        return self.n

    def popitem(self, last=True):
        """one generic iteration of the eviction loop: the invariant is kept by removing any entry;
        afterwards the size is the one at which the loop ends"""
        if last:
            self.bad.append('the most recently used entry is removed')
        if self.stored:
            self.bad.append('entries are removed after the store')
        self.popped += 1
        self.k += 1
        self.n = sym(f'size{self.k}', 'I')
        explore.assume(le(num(0, 'I'), self.n))
        explore.assume(le(self.n, self.limit - num(1, 'I')))
        return None

    def __setitem__(self, key, val):
        self.stored[key] = val
        if not isinstance(val, Val) or val.key != key:
            self.bad.append('a value is stored under the key of other arguments')
        self.n = self.n + num(1, 'I')

    def __getitem__(self, key):
        return self.stored[key] if key in self.stored else Val(key)

    def move_to_end(self, key, last=True):
        if not last:
            self.bad.append('a used entry becomes the next to be removed')


@check.obligations('a memoized function returns the value for its own arguments in every cache state, keeps the cache right and within its size', [D + 'memoize'])
def _(v):
    key = lambda items: ('key', tuple(items[0]), tuple(items[1]))
    f = v.lift(D + 'memoize', overrides={(MOD, 'OrderedDict'): Ghost, (MOD, '_make_hashable'): key, (MOD, '_make_readonly'): lambda x: None})
    M, N = v.dim('maxsize'), v.dim('size')
    hy = [le(num(1, 'I'), M), le(num(0, 'I'), N), le(N, M)]
    for a, kw in (((1,), {}), ((), {'b': 2, 'a': 1}), ((1, 'x'), {'q': 3})):
        calls = []

        def fn(*args, **kwargs):
            k = key([args, sorted(kwargs.items())])
            calls.append(k)
            return Val(k)

        def go(a=a, kw=kw):
            Ghost.made.clear()
            calls.clear()
            w = f(fn, maxsize=M)
            g = Ghost.made[-1]
            g.limit = M
            g.havoc(N)
            r = w(*a, **kw)
            return r, g, list(calls), fn.cache_info()
        want = key([a, sorted(kw.items())])
        for o in v.run(go, hy, max_paths=40):
            if o.exc is not None:
                v.fail(f'call {a} {kw}: raised', repr(o.exc))
                continue
            r, g, c, info = o.value
            v.require(f'call {a} {kw}: value of the function for these arguments', isinstance(r, Val) and r.key == want, repr(getattr(r, 'key', r)))
            v.require(f'call {a} {kw}: cache invariant kept', not g.bad, str(g.bad))
            v.prove(f'call {a} {kw}: cache stays within its size', hy + o.pc, le(L(g.n), M))
            present = any(p is sym('present', 'B') for p in o.pc)
            v.require(f'call {a} {kw}: evaluated exactly when not cached', c == ([] if present else [want]), str(c))
            v.require(f'call {a} {kw}: an entry that is found evicts nothing', not (present and g.popped), '')
            v.require(f'call {a} {kw}: counted once', tuple(info[q] == w for q, w in (('hits', int(present)), ('misses', int(not present)))) == (True, True), str(info))


ARRS = [lambda: np.arange(6.), lambda: np.arange(6.).reshape(2, 3), lambda: np.arange(6.).reshape(3, 2), lambda: np.arange(6), lambda: np.arange(6).astype('>i8'),
        lambda: np.arange(6.).view(np.int64), lambda: np.arange(6.)[::-1], lambda: np.zeros(0), lambda: np.zeros((0, 3)), lambda: np.array(3.), lambda: np.array([0., 1, 2, 3, 4, np.nan]),
        lambda: np.array([-0., 1, 2, 3, 4, 5]), lambda: np.asfortranarray(np.arange(6.).reshape(2, 3)), lambda: np.arange(6.).reshape(2, 3).T]
OTHER = [lambda: 1, lambda: 'a', lambda: None, lambda: (1, 2), lambda: ('a', 1), lambda: (('a', 1),), lambda: {'a': 1}, lambda: {'a': 2}, lambda: {'a': 1, 'b': np.arange(3.)}, lambda: {'a': 1, 'b': np.arange(3.) + 1}, lambda: {'a': {'c': 1}}, lambda: {'a': {'c': 2}}, lambda: [np.arange(3.), 1],
         lambda: [np.arange(3.), 2], lambda: [[1], 2], lambda: [1, [2]], lambda: b'a', lambda: 2.5]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
        return False
    return type(a) is type(b) and a == b


@check.runtime('memoized calls agree with the plain function for every pair of argument lists, whatever was called in between', [D + 'memoize', D + '_make_hashable', D + '_make_readonly'], n=60, thorough=10)
def _(t):
    from hexrd.core.utils.decorators import memoize
    calls = [((g,), {}) for g in ARRS + OTHER] + [((), {'x': g}) for g in ARRS[:4] + OTHER] + [((g, h), {}) for g in ARRS[:3] + OTHER[:4] for h in ARRS[:3] + OTHER[:4]]
    calls += [((OTHER[0],), {'x': OTHER[0]}), ((), {}), ((lambda: [],), {}), ((lambda: (),), {}), ((lambda: [('x', 1)],), {}), ((), {'x': lambda: 1, 'y': lambda: 2}), ((), {'y': lambda: 1, 'x': lambda: 2})]

    def ev(c):
        return tuple(g() for g in c[0]), {k: g() for k, g in c[1].items()}
    count = [0]

    def plain(*a, **k):
        count[0] += 1
        return a, k
    m = memoize(plain, maxsize=4)
    # every ordered pair
    pairs = list(itertools.product(range(len(calls)), repeat=2))
    for k, (i, j) in enumerate(pairs):
        if k == 0:
            m = memoize(plain, maxsize=2)
        a, b = ev(calls[i]), ev(calls[j])
        m(*a[0], **a[1])
        n0 = count[0]
        r = m(*b[0], **b[1])
        ok = same(r[0], b[0]) is not False and same(sorted(r[1].items()), sorted(b[1].items())) is not False
        t.expect(ok, 'cached result of other arguments', first=repr(a), then=repr(b), got=repr(r))
    # histories against the plain function with a small cache whose size changes
    for k in t.cases():
        size = int(t.rng.integers(1, 4))
        seen = []

        def sq(x, w=1):
            seen.append((int(x[0]), w))
            return np.array([x[0] * 10 + w]), [np.array([w])]
        f = memoize(sq, maxsize=size)
        lru = []
        for step in range(25):
            if t.rng.random() < .1:
                size = int(t.rng.integers(1, 5))
                f.set_cache_maxsize(size)
                lru = lru[-size:]
            x, w = int(t.rng.integers(0, 4)), int(t.rng.integers(0, 2))
            seen.clear()
            r = f(np.array([x]), w=w) if w else f(np.array([x]))
            q = (x, w if w else None)
            t.expect(r[0][0] == x * 10 + (w or 1) and r[1][0][0] == (w or 1), 'value of a call in a history', x=x, w=w, got=repr(r))
            t.expect(bool(seen) == (q not in lru), 'least recently used entries are dropped first', step=step, cache=lru, call=q)
            lru = [z for z in lru if z != q] + [q]
            lru = lru[-size:]
            i = f.cache_info()
            t.expect(i['currsize'] == len(lru) and i['maxsize'] == size, 'cache size', info=i, want=len(lru))
            for arr in (r[0], r[1][0]):
                try:
                    arr[0] = -5
                except ValueError:
                    pass


@check.runtime('pixel maps of detectors follow every change of the detector, whatever was computed before', [
    'hexrd.core.instrument.planar_detector:PlanarDetector.pixel_angles', 'hexrd.core.instrument.cylindrical_detector:CylindricalDetector.pixel_angles',
    'hexrd.core.instrument.planar_detector:PlanarDetector.pixel_tth_gradient', 'hexrd.core.instrument.planar_detector:PlanarDetector.pixel_eta_gradient',
    'hexrd.core.instrument.detector:Detector.polarization_factor', 'hexrd.core.instrument.detector:Detector.lorentz_factor'], n=12, thorough=10)
def _(t):
    from hexrd.core.instrument.planar_detector import PlanarDetector
    from hexrd.core.instrument.cylindrical_detector import CylindricalDetector
    from hexrd.core.distortion import get_mapping

    def state(p):
        s = dict(rows=p.rows, cols=p.cols, pixel_size=tuple(float(q) for q in (p.pixel_size_row, p.pixel_size_col)), tvec=np.array(p.tvec, float), tilt=np.array(p.tilt, float), bvec=np.array(p.bvec, float), evec=np.array(p.evec, float))
        if p.distortion is not None:
            s['distortion'] = get_mapping('GE_41RT', list(p.distortion.params))
        else:
            s['distortion'] = None
        return s

    def fresh(p):
        s = state(p)
        kw = {}
        if isinstance(p, CylindricalDetector):
            kw = dict(radius=float(p.radius))
        return type(p)(**s, **kw), dict(**s, **kw)
    for k in t.cases():
        cyl = k % 3 == 2
        kw = dict(rows=int(t.rng.integers(4, 9)), cols=int(t.rng.integers(4, 9)), pixel_size=(float(t.rng.uniform(5, 20)), float(t.rng.uniform(5, 20))),
                  tvec=np.array([float(t.rng.uniform(-50, 50)), float(t.rng.uniform(-50, 50)), -900.]), tilt=t.rng.uniform(-.3, .3, 3))
        if cyl:
            p = CylindricalDetector(radius=600., **kw)
        else:
            p = PlanarDetector(distortion=get_mapping('GE_41RT', [2e-4, 1e-4, 3e-4, 2., 2., 2.]) if k % 2 else None, **kw)
        ops = ['tvec', 'tilt', 'rows', 'cols', 'pixel_size_row', 'pixel_size_col', 'bvec', 'evec'] + (['radius'] * 2 if cyl else []) + (['distortion'] * 3 if p.distortion is not None else [])
        hist = []
        for step in range(6):
            q, args = fresh(p)
            for name in ('pixel_angles', 'pixel_tth_gradient', 'pixel_eta_gradient'):
                for origin in (np.zeros(3), np.array([.4, -.3, .2])):
                    got = getattr(p, name)(origin)
                    # the oracle never sees a cached value: other arguments are asked for first
                    mod = __import__(type(p).__module__, fromlist=['x'])
                    fn = getattr(mod, '_' + name)
                    far = fresh(p)[0]
                    for z in range(3):
                        far.tvec = np.array([1e3 + z, 0, -3e3 - step])
                        getattr(far, name)(origin)
                    want = getattr(q, name)(origin)
                    t.close(np.array(got), np.array(want), f'{name} after {hist[-1] if hist else "construction"}', rtol=1e-12, atol=1e-12, history=hist, state=args)
            t.close(p.polarization_factor(.9, .1), q.polarization_factor(.9, .1), 'polarization factor', history=hist)
            t.close(p.lorentz_factor(), q.lorentz_factor(), 'Lorentz factor', history=hist)
            op = ops[int(t.rng.integers(len(ops)))]
            if op in ('tvec', 'tilt'):
                setattr(p, op, getattr(p, op) + t.rng.uniform(-.1, .1, 3))
            elif op in ('rows', 'cols'):
                setattr(p, op, getattr(p, op) + int(t.rng.integers(1, 3)))
            elif op.startswith('pixel_size'):
                setattr(p, op, getattr(p, op) * 1.2)
            elif op == 'radius':
                p.radius = p.radius * 1.1
            elif op in ('bvec', 'evec'):
                b = np.array(p.bvec if op == 'bvec' else p.evec, float) + t.rng.uniform(-.1, .1, 3)
                setattr(p, op, b / np.linalg.norm(b))
            else:
                if step % 2:
                    p.distortion.params[int(t.rng.integers(3))] += 1e-3       # changed in place
                else:
                    p.distortion.params = [float(z) for z in np.array(p.distortion.params, float) * [1.3, .7, 1.1, 1, 1, 1]]
            hist.append(op)


@check.runtime('frame caches are read again when their file has changed', ['hexrd.core.imageseries.load.framecache:FrameCacheImageSeriesAdapter', 'hexrd.core.imageseries.save:WriteFrameCache'], n=4, thorough=5)
def _(t):
    from hexrd.core import imageseries
    for k in t.cases():
        style = 'npz' if k % 2 else 'fch5'
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'a.' + style)
            for step in range(3):
                data = (t.rng.integers(0, 3, (2, 5, 6)) * t.rng.integers(0, 200, (2, 5, 6))).astype(np.uint16)
                data[0, 0, 0] = 7 + step
                ims = imageseries.open(None, 'array', data=data, meta={})
                imageseries.write(ims, f, 'frame-cache', style=style, threshold=0, cache_file=f)
                os.utime(f, ns=(10 ** 18 + step * 10 ** 9, 10 ** 18 + step * 10 ** 9))
                r = imageseries.open(f, 'frame-cache', style=style)
                t.expect(np.array_equal(np.array([r[i] for i in range(2)]), data), 'frames of the current file', step=step, style=style)
