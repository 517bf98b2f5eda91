"""Lifting: run the code objects of /repo over symbolic values.

A lifted function is `types.FunctionType(f.__code__, env)`: the code object is the one
the interpreter runs, only the names it looks up (numpy, math, builtins, other lifted
functions) are resolved in a symbolic environment.  Nothing of the function body is
rewritten, extracted or dropped.  numba-jitted functions are lifted through their
`py_func` (numba compiles that same code object).
"""
import builtins as _b
import functools
import importlib
import math
import operator
import types

import numpy as _np

from . import terms as tm, snp, explore
from .terms import T, Unsupported, L, num


# ------------------------------------------------------------------ symbolic math
class SMath:
    pi, e, inf, nan, tau = math.pi, math.e, math.inf, math.nan, math.tau

    def __getattr__(self, name):
        f = _SM.get(name)
        if f is None:
            raise Unsupported('math.' + name)
        return f


def _m(symf, realf, n=1):
    def f(*a):
        if any(tm_is(x) for x in a):
            return symf(*[L(snp._scalar(x)) if isinstance(x, snp.ndarray) else L(x) for x in a])
        return realf(*a)
    return f


def tm_is(x):
    return isinstance(x, (T, snp.ndarray))


_SM = {
    'sqrt': _m(tm.sqrt, math.sqrt), 'sin': _m(tm.sin, math.sin), 'cos': _m(tm.cos, math.cos),
    'tan': _m(tm.tan, math.tan), 'atan2': _m(tm.atan2, math.atan2),
    'exp': _m(tm.exp, math.exp), 'fabs': _m(tm.absv, math.fabs),
    'floor': _m(tm.floor, math.floor), 'ceil': _m(tm.ceil, math.ceil),
    'pow': _m(tm.power, math.pow), 'isnan': _m(tm.isnan, math.isnan),
    'radians': _m(lambda x: tm.mul(x, tm.div(tm.PI, num(180))), math.radians),
    'degrees': _m(lambda x: tm.mul(x, tm.div(num(180), tm.PI)), math.degrees),
}
for _n in ('acos', 'asin', 'atan', 'sinh', 'cosh', 'tanh', 'log'):
    if hasattr(tm, _n):
        _SM[_n] = _m(getattr(tm, _n), getattr(math, _n))
smath = SMath()


# ------------------------------------------------------------------ symbolic builtins
def s_len(x):
    if isinstance(x, snp.ndarray):
        return x.shape[0] if x.shape else len(x)
    if isinstance(x, snp.SymRange):
        return x.n
    m = getattr(type(x), '__len__', None)
    if isinstance(m, types.FunctionType):
        return m(x)   # a lifted class may have a symbolic length
    return _b.len(x)


def s_range(*a):
    a = [x.item() if isinstance(x, snp.ndarray) else x for x in a]
    a = [int(x.args[0]) if isinstance(x, T) and x.op == 'num' else x for x in a]
    if not any(isinstance(x, T) for x in a):
        return _b.range(*[int(x) if isinstance(x, _np.integer) else x for x in a])
    if len(a) == 1:
        return snp.SymRange(0, a[0], 1)
    return snp.SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)


_KIND = {'R': (float,), 'I': (int,), 'B': (bool, int)}


def s_isinstance(x, cls):
    import numbers
    cl = cls if isinstance(cls, tuple) else (cls,)
    flat = []
    for c in cl:
        if isinstance(c, types.UnionType):
            flat += list(c.__args__)
        elif c is s_float:
            flat.append(float)
        elif c is s_int:
            flat.append(int)
        elif c is s_bool:
            flat.append(bool)
        else:
            flat.append(c)
    if isinstance(x, T):
        for c in flat:
            if c in _KIND[x.sort] or c is object:
                return True
            if isinstance(c, type) and c is not T:
                if x.sort == 'R' and issubclass(float, c):
                    return True
                if x.sort == 'I' and issubclass(int, c):
                    return True
        return any(c is T for c in flat)
    if isinstance(x, snp.ndarray):
        return any(c is snp.ndarray or c is _np.ndarray for c in flat)
    flat = [c for c in flat if isinstance(c, type) or hasattr(c, '__instancecheck__')]
    flat += [_np.ndarray for c in flat if c is snp.ndarray]
    return _b.isinstance(x, tuple(flat))


def s_float(x=0.0):
    if isinstance(x, snp.ndarray):
        x = x.item()
    if isinstance(x, T):
        return tm.toreal(x)
    return float(x)


def s_int(x=0, *a):
    if isinstance(x, snp.ndarray):
        x = x.item()
    if isinstance(x, T):
        return tm.trunc(x) if x.sort == 'R' else tm.tonum(x)
    return int(x, *a)


def s_bool(x=False):
    if isinstance(x, T):
        return tm.tobool(x)
    return bool(x)


s_float._pytype, s_int._pytype, s_bool._pytype = float, int, bool


def s_abs(x):
    return abs(x)


def _items(a):
    if len(a) == 1:
        a = a[0]
        if isinstance(a, snp.ndarray) and not a.is_conc:
            return None, a
        a = list(a)
    return list(a), None


def s_max(*a, **k):
    xs, arr = _items(a)
    if xs is None:
        return snp.max(arr)
    if any(tm_is(x) for x in xs) and not k:
        xs = [snp._scalar(x) if isinstance(x, snp.ndarray) else x for x in xs]
        r = L(xs[0])
        for x in xs[1:]:
            r = tm.ite(tm.lt(r, L(x)), L(x), r)
        return r
    return _b.max(xs, **k)


def s_min(*a, **k):
    xs, arr = _items(a)
    if xs is None:
        return snp.min(arr)
    if any(tm_is(x) for x in xs) and not k:
        xs = [snp._scalar(x) if isinstance(x, snp.ndarray) else x for x in xs]
        r = L(xs[0])
        for x in xs[1:]:
            r = tm.ite(tm.lt(L(x), r), L(x), r)
        return r
    return _b.min(xs, **k)


def s_sum(xs, start=0):
    if isinstance(xs, snp.ndarray):
        if not xs.is_conc:
            return snp.sum(xs, axis=0)
    r = start
    for x in xs:
        r = r + x
    return r


def s_any(xs):
    return snp.any(xs) if isinstance(xs, snp.ndarray) and xs.ndim == 1 else _b.any(xs)


def s_all(xs):
    return snp.all(xs) if isinstance(xs, snp.ndarray) and xs.ndim == 1 else _b.all(xs)


def s_enumerate(x, start=0):
    if isinstance(x, snp.SymRange) or (isinstance(x, snp.ndarray) and not x.is_conc and isinstance(x.shape[0], T)):
        return _senum(x, start)
    return _b.enumerate(x, start)


class _Gen2:
    """iteration over an indexable of symbolic length, keeping the SymRange frame check"""

    def __init__(self, rng, f):
        self.rng, self.f = rng, f

    def __iter__(self):
        it = iter(self.rng)   # frame check is done by SymRange on the calling frame
        f = self.f
        return _map(it, f)


def _map(it, f):
    for i in it:
        yield f(i)


def _senum(x, start):
    n = s_len(x)
    return _Gen2(snp.SymRange(0, n, 1), lambda i: (i + start if start else i, x[i]))


def s_zip(*xs, strict=False):
    sym = [x for x in xs if isinstance(x, snp.SymRange) or (isinstance(x, snp.ndarray) and not x.is_conc and isinstance(x.shape[0], T))]
    if not sym:
        return _b.zip(*xs)
    n = s_len(sym[0])
    for x in sym[1:]:
        if not snp._same_dim(s_len(x), n):
            raise Unsupported('zip of different symbolic lengths')
    for x in xs:
        if not any(x is y for y in sym):
            raise Unsupported('zip of symbolic and concrete lengths')
    return _Gen2(snp.SymRange(0, n, 1), lambda i: tuple(x[i] for x in xs))


def s_round(x, n=None):
    if isinstance(x, T):
        if n:
            raise Unsupported('round')
        return tm.rint(x)
    return _b.round(x, n) if n is not None else _b.round(x)


def s_type(*a):
    if len(a) == 1 and isinstance(a[0], T):
        return {'R': float, 'I': int, 'B': bool}[a[0].sort]
    return type(*a)


def s_pow(a, b):
    return a ** b


BUILTINS = dict(vars(_b))
BUILTINS.update(
    len=s_len, range=s_range, isinstance=s_isinstance, float=s_float, int=s_int, bool=s_bool,
    max=s_max, min=s_min, sum=s_sum, enumerate=s_enumerate, zip=s_zip, round=s_round,
    any=s_any, all=s_all, abs=s_abs, print=lambda *a, **k: None, type=s_type, pow=s_pow,
)


class _Warn:
    def __getattr__(self, n):
        if n == 'catch_warnings':
            return lambda *a, **k: _Null()
        return lambda *a, **k: None


class _Logger:
    def __getattr__(self, n):
        return lambda *a, **k: None


class _NB:
    prange = staticmethod(s_range)

    def __getattr__(self, n):
        raise Unsupported('numba.' + n)


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class LGlobals(dict):
    """the symbolic counterpart of a module's globals"""

    def __init__(self, lifter, g):
        super().__init__()
        self.lifter, self.g = lifter, g
        super().__setitem__('__builtins__', BUILTINS)
        super().__setitem__('__name__', g.get('__name__'))

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        if k in self.g:
            v = self.lifter.value(self.g[k], self.g.get('__name__', ''), k)
            dict.__setitem__(self, k, v)
            return v
        if k in BUILTINS:
            return BUILTINS[k]
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d


class LModule:
    def __init__(self, lifter, mod):
        object.__setattr__(self, '_l', lifter)
        object.__setattr__(self, '_m', mod)

    def __getattr__(self, k):
        try:
            return self._l.globals(vars(self._m))[k]
        except KeyError:
            v = getattr(self._m, k)
            return self._l.value(v, self._m.__name__, k)


class Lifter:
    def __init__(self, contracts=None, overrides=None, trusted=None):
        # contracts: {real function object or 'module:qualname': python callable over terms}
        self.contracts = {}
        for k, v in (contracts or {}).items():
            f = resolve(k) if isinstance(k, str) else k
            self.contracts[id(unwrap(f))] = v
            self.contracts[id(f)] = v
        self.overrides = overrides or {}     # {('module','name') or 'name': value}
        self._g = {}
        self._f = {}
        self._c = {}
        self._keep = []
        self.lifted = {}         # qualname -> code object (functions executed)

    def globals(self, g):
        r = self._g.get(id(g))
        if r is None:
            r = LGlobals(self, g)
            self._g[id(g)] = r
        return r

    # ---------------------------------------------------------------- values
    def value(self, v, mod='', name=''):
        o = self.overrides.get((mod, name), self.overrides.get(name, self) if name else self)
        if o is not self:
            return o
        if id(v) in self.contracts:
            return self.contracts[id(v)]
        if v is _np:
            return snp
        if v is math:
            return smath
        if isinstance(v, types.ModuleType):
            n = v.__name__
            if n == 'warnings':
                return _Warn()
            if n.startswith('numba'):
                return _NB()
            if n.startswith('hexrd'):
                return LModule(self, v)
            if n.split('.')[0] in ('copy', 'itertools', 'functools', 'operator', 'os', 're', 'time',
                                   'collections', 'sys', 'abc', 'typing', 'enum', 'logging', 'numbers',
                                   'builtins', 'string', 'inspect', 'types', 'pathlib'):
                return v
            if n == 'numpy.linalg':
                return snp.linalg
            if n == 'scipy.constants':
                return v
            return _Opaque(n)
        if v is _np.linalg.norm:
            return snp.linalg.norm
        if type(v).__name__ == 'Logger':
            return _Logger()
        if isinstance(v, (_np.ufunc,)):
            return getattr(snp, v.__name__)
        if isinstance(v, types.FunctionType) and v.__code__.co_filename.endswith('contextlib.py') and hasattr(v, '__wrapped__'):
            import contextlib
            return contextlib.contextmanager(self.func(v.__wrapped__))
        if type(v).__name__ == 'PyVec':
            return _vec(self.func(v.py_func))
        f = unwrap(v)
        if isinstance(f, types.FunctionType):
            if id(f) in self.contracts:
                return self.contracts[id(f)]
            m = f.__module__ or ''
            if m.startswith('hexrd'):
                return self.func(f)
            if m.startswith('numpy'):
                if m.startswith('numpy.linalg'):
                    return getattr(snp.linalg, f.__name__)
                return getattr(snp, f.__name__)
            if m.split('.')[0] in ('copy', 'functools', 'itertools', 'operator', 're', 'os', 'typing', 'dataclasses', 'collections', 'contextlib'):
                return f
            return _Opaque(f'{m}.{f.__name__}')
        if callable(v) and getattr(v, '__module__', None) and isinstance(v, types.BuiltinFunctionType):
            m = v.__module__
            if m == 'math':
                return getattr(smath, v.__name__)
            if m and m.startswith('numpy'):
                return getattr(snp, v.__name__)
            return v
        if type(v).__module__.startswith('numpy') and callable(v) and not isinstance(v, type) and not isinstance(v, _np.ndarray) and not isinstance(v, _np.generic):
            return getattr(snp, getattr(v, '__name__', 'unknown'))
        if isinstance(v, type):
            if v is _np.ndarray:
                return snp.ndarray
            if v.__module__.startswith('hexrd') and not issubclass(v, BaseException):
                return self.cls(v)
            return v
        if isinstance(v, _np.ndarray):
            if v.dtype.kind in 'OSU':
                return v
            return snp.asarray(v)
        if isinstance(v, list):
            return [self.value(x) for x in v]
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.value(x) for x in v)
        if isinstance(v, dict) and type(v) is dict and len(v) < 400:
            return {k: self.value(x) for k, x in v.items()}
        return v

    # ---------------------------------------------------------------- functions
    def func(self, f, cell_class=None):
        f0 = unwrap(f)
        key = (id(f0), id(cell_class))
        r = self._f.get(key)
        if r is not None:
            return r
        self._keep.append(f0)
        g = self.globals(f0.__globals__)
        clo = None
        r = types.FunctionType(f0.__code__, g, f0.__name__, None, self._closure(f0, cell_class))
        self._f[key] = r
        if f0.__defaults__:
            r.__defaults__ = tuple(self.value(d) for d in f0.__defaults__)
        if f0.__kwdefaults__:
            r.__kwdefaults__ = {k: self.value(d) for k, d in f0.__kwdefaults__.items()}
        r.__qualname__ = f0.__qualname__
        r.__module__ = f0.__module__
        self.lifted[f'{f0.__module__}.{f0.__qualname__}'] = f0.__code__
        return r

    def _closure(self, f, cell_class):
        if not f.__closure__:
            return None
        out = []
        for n, c in zip(f.__code__.co_freevars, f.__closure__):
            if n == '__class__':
                if cell_class is None:
                    cell_class = types.CellType()
                    cell_class.cell_contents = self.cls(c.cell_contents)
                out.append(cell_class)
            else:
                try:
                    out.append(types.CellType(self.value(c.cell_contents)))
                except ValueError:
                    out.append(types.CellType())
        return tuple(out)

    # ---------------------------------------------------------------- classes
    def cls(self, c):
        r = self._c.get(id(c))
        if r is not None:
            return r
        import enum
        if issubclass(c, enum.Enum):
            self._c[id(c)] = c
            return c
        bases = tuple(
            self.cls(b) if b.__module__.startswith('hexrd') else (object if b.__name__ in ('ABC', 'Generic', 'Protocol') else b)
            for b in c.__bases__
        )
        bases = tuple(b for i, b in enumerate(bases) if b not in bases[:i])
        if len(bases) > 1:
            bases = tuple(b for b in bases if b is not object) or (object,)
        cell = types.CellType()
        ns = {}
        for k, v in vars(c).items():
            if k in ('__dict__', '__weakref__', '__abstractmethods__', '_abc_impl', '__slots__') or isinstance(v, types.MemberDescriptorType):
                continue
            ns[k] = self.member(v, cell, c.__module__)
        ns['__module__'] = c.__module__
        # placeholder so that self-references resolve
        new = type.__new__(type, c.__name__, bases, ns)
        cell.cell_contents = new
        self._c[id(c)] = new
        self._keep.append(c)
        return new

    def member(self, v, cell, mod):
        if isinstance(v, staticmethod):
            return staticmethod(self.member(v.__func__, cell, mod))
        if isinstance(v, classmethod):
            return classmethod(self.member(v.__func__, cell, mod))
        if isinstance(v, property):
            return property(*[self.member(x, cell, mod) if x is not None else None for x in (v.fget, v.fset, v.fdel)])
        if isinstance(v, functools.cached_property):
            p = functools.cached_property(self.member(v.func, cell, mod))
            p.attrname = v.attrname
            return p
        f = unwrap(v)
        if id(v) in self.contracts:
            return self.contracts[id(v)]
        if isinstance(f, types.FunctionType):
            if id(f) in self.contracts:
                c = self.contracts[id(f)]
                return c
            if (f.__module__ or '').startswith('hexrd'):
                return self.func(f, cell)
            return f
        if isinstance(v, (types.GetSetDescriptorType,)):
            return v
        return self.value(v, mod)


def _vec(g):
    def f(*a):
        arrs = [snp.asarray(x) for x in a]
        if all(x.ndim == 0 for x in arrs):
            return g(*a)
        sh = snp._bshape(*[x.shape for x in arrs])
        sn = [x.snapshot() for x in arrs]
        return snp.ndarray.symb(sh, lambda i: L(g(*[s(snp._bcast_idx(i, x.shape, len(sh))) for s, x in zip(sn, arrs)])))
    return f


class _Opaque:
    """external code: any use is outside the verifier's reach"""

    def __init__(self, n):
        self.__dict__['_n'] = n

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _Opaque(self._n + '.' + k)

    def __call__(self, *a, **k):
        raise Unsupported('call of external ' + self._n)


def unwrap(f):
    """the python function behind a numba dispatcher / memoize wrapper"""
    for _ in range(6):
        if hasattr(f, 'py_func'):
            f = f.py_func
        elif isinstance(f, types.FunctionType) and hasattr(f, '__wrapped__'):
            f = f.__wrapped__
        elif isinstance(f, types.MethodType):
            f = f.__func__
        else:
            break
    return f


def resolve(path):
    mod, _, q = path.partition(':')
    o = importlib.import_module(mod)
    for p in q.split('.') if q else []:
        if isinstance(o, type):
            o = o.__dict__[p] if p in o.__dict__ else getattr(o, p)
            if isinstance(o, (staticmethod, classmethod)):
                o = o.__func__
        else:
            o = getattr(o, p)
    return o
