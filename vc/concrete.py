"""The executable form of an obligations group: the same contract text, evaluated on the real functions at
random arguments.  It never proves anything; it is run when a group of obligations fails or no longer applies, to
find an input on which the real code breaks the contract (vc/concrete.json lists the groups whose text can be
evaluated this way; tools/concretize.py computes the list)."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import types

import numpy as np

from . import terms as tm, lift
from .terms import T, TRUE, FALSE, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))


class Skip(BaseException):
    pass


class Precondition(Skip):
    pass


class Index(Skip):
    pass


class Found(BaseException):
    def __init__(self, msg, data):
        super().__init__(msg)
        self.msg, self.data = msg, data


class CA(np.ndarray):
    """array whose elements a contract may also read with el()"""
    is_conc = False

    @property
    def a(self):
        return self

    def el(self, ix):
        ix = tuple(int(val(i)) for i in (ix if isinstance(ix, tuple) else (ix,)))
        try:
            return self[ix]
        except IndexError:
            if len(ix) == self.ndim:
                raise Index('index')
            raise


def val(t):
    if isinstance(t, T):
        try:
            return tm.evalf(t, {})
        except KeyError:
            raise Skip('symbol')
    return t


def wrap(x, depth=0):
    if type(x) is np.ndarray and x.dtype.kind in 'fiub':
        return x.view(CA)
    if depth < 3 and type(x) is dict:
        return {k: wrap(y, depth + 1) for k, y in x.items()}
    if depth < 3 and type(x) in (tuple, list):
        return type(x)(wrap(y, depth + 1) for y in x)
    return x


def _num(x):
    x = val(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    raise Skip(f'not a number: {type(x).__name__}')


TOL = 1e-6
SEEDS = 150


def ceq(a, b):
    a, b = _num(a), _num(b)
    if math.isnan(a) or math.isnan(b):
        return TRUE if math.isnan(a) == math.isnan(b) else FALSE
    if math.isinf(a) or math.isinf(b):
        return TRUE if a == b else FALSE
    return TRUE if abs(a - b) <= TOL * (1 + max(abs(a), abs(b))) else FALSE


def cle(a, b):
    a, b = _num(a), _num(b)
    if math.isnan(a) or math.isnan(b):
        return FALSE
    return TRUE if a <= b + (0 if math.isinf(b) else TOL * (1 + abs(b))) else FALSE


def clt(a, b):
    a, b = _num(a), _num(b)
    return TRUE if a < b else FALSE


class Verifier:
    def __init__(self, check, group, seed):
        self.check, self.group = check, group
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.inputs, self.memo = {}, {}
        self.run_ = types.SimpleNamespace(seed=seed, known=lambda *a: True, lifters=[], kernels=[], tier='quick', ground_failure=None)
        self.style = seed % 6
        self.thunks = self.tested = 0

    # ------------------------------------------------------------ inputs
    def _draw(self, shape, name=''):
        r = self.rng
        if self.style == 3:
            x = r.uniform(0.05, 0.9, shape)
        elif self.style == 4:
            x = r.uniform(0.3, 2.5, shape)
        else:
            x = r.normal(size=shape)
        if self.style == 1 and len(shape) >= 1 and shape[0] in (3, 4):
            x = x / np.sqrt((x * x).sum(0))
        if self.style == 2 and len(shape) >= 1 and shape[-1] in (3, 4):
            x = x / np.sqrt((x * x).sum(-1, keepdims=True))
        return x

    def sym(self, name, sort='R'):
        if name not in self.memo:
            if sort == 'I':
                x = int(self.rng.integers(0, 3))
            elif sort == 'B':
                x = bool(self.rng.integers(0, 2))
            else:
                x = np.float64(self._draw(()))
            self.memo[name] = self.inputs[name] = x
        return self.memo[name]

    def reals(self, name, shape=()):
        if shape == ():
            return self.sym(name)
        shape = tuple(int(val(k)) for k in shape)
        key = (name, shape)
        if key not in self.memo:
            x = self._draw(shape)
            self.inputs[f'{name}{shape}'] = x.copy()
            self.memo[key] = self.memo[name] = x.view(CA)
        return self.memo[key]

    def ints(self, name, shape=()):
        if shape == ():
            return self.sym(name, 'I')
        shape = tuple(int(val(k)) for k in shape)
        key = (name, shape)
        if key not in self.memo:
            x = self.rng.integers(-2, 4, shape)
            self.inputs[f'{name}{shape}'] = x.copy()
            self.memo[key] = self.memo[name] = x.view(CA)
        return self.memo[key]

    def array(self, name, shape, sort='R'):
        shape = tuple(int(val(k)) for k in shape)
        if sort == 'R':
            return self.reals(name, shape)
        if sort == 'I':
            return self.ints(name, shape)
        if name not in self.memo:
            x = self.rng.integers(0, 2, shape).astype(bool)
            self.inputs[name] = x.copy()
            self.memo[name] = x.view(CA)
        return self.memo[name]

    def dim(self, name):
        if name not in self.memo:
            self.memo[name] = self.inputs[name] = int(self.rng.integers(1, 4)) + (self.seed % 3 > 0)
        return self.memo[name]

    def app(self, name, *args, sort='R'):
        if name in self.memo and isinstance(self.memo[name], np.ndarray):
            return self.memo[name].el(tuple(args))
        raise Skip('uninterpreted function')

    # ------------------------------------------------------------ code
    def lift(self, path, contracts=None, overrides=None, new=False):
        return lift.resolve(path) if isinstance(path, str) else path

    def kernel(self, m):
        raise Skip('kernel')

    def holds(self, hyps):
        for h in hyps:
            if not isinstance(h, T):
                h = TRUE if h else FALSE
            if not val(h):
                return False
        return True

    def run(self, thunk, hyps=(), max_paths=4000, allow_exc=False, feas_ms=1500):
        if not self.holds(hyps):
            raise Precondition('precondition')
        self.thunks += 1
        try:
            with np.errstate(all='ignore'):
                r = thunk()
        except (Skip, Found, Unsupported, StopIteration):
            raise
        except Exception as e:
            import hexrd
            own = tuple(os.path.dirname(p) for p in hexrd.__path__)
            tb = traceback.extract_tb(e.__traceback__)
            if allow_exc:
                return [types.SimpleNamespace(pc=[], value=None, exc=e, state=None)]
            if tb and any(x.filename.startswith(own) for x in tb):
                raise Found(f'{self.group}: the code raised {e!r}',
                            {'traceback': ''.join(traceback.format_exception(e))[-2500:]})
            raise Skip(repr(e))
        return [types.SimpleNamespace(pc=[], value=wrap(r), exc=None, state=None)]

    # ------------------------------------------------------------ statements
    def prove(self, name, hyps, goal, **k):
        if not self.holds(hyps):
            return
        for r in k.get('relations') or ():
            if val(ceq(_num(r[0]) ** 2, r[1])) is not True:
                return
        self.tested += 1
        g = goal if isinstance(goal, T) else TRUE if goal else FALSE
        if not val(g):
            raise Found(f'{self.group}: {name} fails on the real code', {})

    def eq_arrays(self, name, hyps, got, want, **k):
        if not self.holds(hyps):
            return
        if hasattr(want, 'is_conc') and not isinstance(want, np.ndarray):
            want = want.a
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape and not g.size == w.size == 1:
            raise Found(f'{self.group}: {name}: shape {g.shape} != {w.shape}', {})
        for i, (x, y) in enumerate(zip(g.reshape(-1), w.reshape(-1))):
            self.prove(f'{name}[{i}]', hyps, ceq(x, y))

    def require(self, name, cond, detail=''):
        self.tested += 1
        if not cond:
            raise Found(f'{self.group}: {name} {detail}'[:500], {})

    def ground(self, name, cond, what='', **data):
        self.require(name, cond, what)

    def fail(self, name, detail):
        raise Found(f'{self.group}: {name} {detail}'[:500], {})

    def ok(self, name, backend='structure'):
        self.tested += 1

    def vacuity(self, hyps):
        pass


def cnum(x, sort=None):
    return int(x) if sort == 'I' else np.float64(float(x)) if sort == 'R' or not isinstance(x, int) else x


def cL(x):
    x = val(x)
    return np.float64(x) if isinstance(x, float) else x


def cite(c, a, b):
    return a if val(c) else b


class Terms:
    """the term constructors, on numbers"""

    def __init__(self, names):
        self._names = names

    def __getattr__(self, name):
        if name in self._names:
            return self._names[name]
        f = getattr(tm, name)
        if name == 'PI':
            return np.pi
        if not isinstance(f, types.FunctionType):
            return f

        def g(*a, **k):
            r = f(*[tm.L(x) if isinstance(x, (int, float, np.number, np.bool_)) else x for x in a], **k)
            return cL(r) if isinstance(r, T) and r.sort != 'B' else r
        return g


class _Arrays:
    @staticmethod
    def conc(a, dt=None):
        b = np.empty(a.shape, dt if dt is not None and np.dtype(dt).kind in 'fiub' else float)
        for i in np.ndindex(*a.shape):
            b[i] = val(a[i])
        return b.view(CA)

    @staticmethod
    def symb(shape, fn, dt=None):
        shape = tuple(int(val(k)) for k in shape)
        b = np.empty(shape, dt if dt is not None and np.dtype(dt).kind in 'fiub' else float)
        for i in np.ndindex(*shape):
            b[i] = val(fn(i))
        return b.view(CA)


class Snp:
    ndarray = _Arrays

    @staticmethod
    def asarray(x, dtype=None):
        x = np.asarray(x, dtype)
        return _Arrays.conc(x) if x.dtype == object else x.view(CA)
    array = asarray

    def __getattr__(self, n):
        if n in ('sin', 'cos', 'tan', 'sqrt', 'arcsin', 'arccos', 'pi', 'nan', 'inf', 'dot', 'eye', 'zeros', 'ones', 'empty', 'stack', 'vstack', 'hstack', 'radians', 'degrees'):
            return getattr(np, n)
        raise Skip('snp.' + n)


def _late(*a):
    raise Skip('time')


def once(check, f, name, seed, limit=20):
    """-> ('found', msg, data) | ('held', statements) | ('skip', why)"""
    for k in range(25):
        r = _once(check, f, name, seed + 10000 * k, limit)
        if r[0] != 'precondition':
            return r
    return ('skip', 'precondition')


def _once(check, f, name, seed, limit=20):
    v = Verifier(check, name, seed)
    mods = [m for n, m in list(sys.modules.items()) if n.startswith('props.')]
    up = lambda f: lambda *a: f(*[x if isinstance(x, T) else TRUE if x else FALSE for x in a])
    bools = {n: up(getattr(tm, n)) for n in ('and_', 'or_', 'not_', 'implies')}
    new = {'eq': ceq, 'le': cle, 'lt': clt, 'sym': v.sym, 'app': v.app, 'num': cnum, 'L': cL, 'ite': cite, 'PI': np.pi,
           **bools}
    new['snp'] = Snp()
    new['tm'] = Terms(dict(new))
    core = {'eq': ceq, 'le': cle, 'lt': clt}
    saved = [(m, n, getattr(m, n), new[n]) for m in mods for n in new if hasattr(m, n)]
    saved += [(m, n, x, v.sym(x.args[0], x.sort)) for m in mods for n, x in list(vars(m).items())
              if isinstance(x, T) and x.op == 'sym']
    saved += [(tm, n, getattr(tm, n), core[n]) for n in core]
    old = signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        for m, n, _, x in saved:
            setattr(m, n, x)
        with np.errstate(all='ignore'):
            f(v)
        return ('held', v.tested) if v.thunks and v.tested else ('skip', 'nothing tested')
    except Found as e:
        import copy
        return ('found', e.msg, dict(e.data, inputs=copy.deepcopy(v.inputs), seed=seed))
    except (Precondition, Index):
        return ('precondition',)
    except (Skip, Unsupported) as e:
        return ('skip', repr(e)[:200])
    except RecursionError:
        return ('skip', 'recursion')
    except Exception as e:
        return ('skip', repr(e)[:300] + ' ' + ''.join(traceback.format_exception(e))[-400:].replace('\n', ' | '))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        for m, n, x, _ in saved:
            setattr(m, n, x)


def table():
    try:
        with open(os.path.join(HERE, 'concrete.json')) as g:
            return json.load(g)
    except FileNotFoundError:
        return {}


def search(check, groups, limit=60):
    """-> (msg, data) of a failing input, or None"""
    ok = set(table().get(check.pid, ()))
    t0 = time.time()
    for name, f in groups:
        if name not in ok:
            continue
        for k in range(SEEDS):
            if time.time() - t0 > limit:
                return None
            r = once(check, f, name, k, 10)
            if r[0] == 'found':
                return r[1], r[2]
    return None
