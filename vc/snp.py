"""Symbolic numpy: the trusted model of the numpy operations the verified code uses.

`ndarray` values either have a concrete shape (backed by a real numpy object array of
terms, so that views, broadcasting and reshaping are numpy's own), or have one or more
symbolic dimensions (backed by an element function index -> term).
"""
import builtins
import operator
import dis
import sys
import types
from fractions import Fraction

import numpy as _np

from . import terms as tm
from .terms import (
    T, L, num, TRUE, FALSE, NAN, PI, Unsupported, and_, or_, not_, ite, tobool, toreal,
)
from . import explore

_obj = object


def is_sym(x):
    return isinstance(x, (T, ndarray))


def _isint(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, (bool, _np.bool_))


def _dim(d):
    """normalise a dimension"""
    if isinstance(d, T):
        if d.op == 'num':
            return int(d.args[0])
        return d
    return int(d)


def _same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    if (isinstance(a, T) and a in FILTERS) or (isinstance(b, T) and b in FILTERS):
        fa, fb = FILTERS.get(a), FILTERS.get(b)
        if fa and fb and _same_dim(fa[0], fb[0]):
            i = tm.sym('%fi', 'I')
            if fa[1](i) is fb[1](i):
                return True
        raise Unsupported('comparing filtered lengths')
    return builtins.bool(tm.eq(a, b))


# filtered dimensions: T length symbol -> (base dim, mask fn)
FILTERS = {}
_FCACHE = {}
_n = [0]


def fresh(tag, sort='I'):
    _n[0] += 1
    return tm.sym(f'%{tag}{_n[0]}', sort)


def filter_dim(base, maskfn):
    i = tm.sym('%fi', 'I')
    key = (base, maskfn(i))
    d = _FCACHE.get(key)
    if d is None:
        d = fresh('count')
        FILTERS[d] = (base, maskfn)
        _FCACHE[key] = d
    return d


_DT = {'R': _np.dtype(float), 'I': _np.dtype(int), 'B': _np.dtype(bool)}


def _mkdt(x):
    return _np.dtype(getattr(x, '_pytype', x))


def _cast(v, dt):
    if dt is None or dt.kind == 'O':
        return v
    v = L(v)
    if dt.kind == 'f':
        return toreal(v) if v.sort != 'R' else v
    if dt.kind in 'iu':
        if v.sort == 'R':
            return tm.cast(v, dt)
        return tm.tonum(v)
    if dt.kind == 'b':
        return tobool(v)
    return v


def _join(*dts):
    k = [d for d in dts if d is not None]
    if not k:
        return _DT['R']
    if builtins.any(d.kind == 'O' for d in k):
        return k[0]
    r = k[0]
    for d in k[1:]:
        r = _np.promote_types(r, d)
    return r


class Buf:
    """storage of a symbolic-shape array"""

    __slots__ = ('shape', 'fn', 'memo', 'writes', 'born')

    def __init__(self, shape, fn):
        self.shape, self.fn, self.memo, self.writes = shape, fn, {}, 0
        e = explore._ENGINES[-1] if explore._ENGINES else None
        self.born = e.log[-1].epoch if e is not None and e.log else None

    def get(self, idx):
        idx = tuple(int(i) if isinstance(i, _np.integer) else
                    (int(i.args[0]) if isinstance(i, T) and i.op == 'num' else i) for i in idx)
        r = self.memo.get(idx)
        if r is None:
            r = L(self.fn(idx))
            self.memo[idx] = r
        return r

    def set_fn(self, fn):
        e = explore._ENGINES[-1] if explore._ENGINES else None
        if e is not None and e.log and not e.log[-1].owns(self):
            raise Unsupported('whole-array write inside a generic loop iteration')
        self.fn, self.memo = fn, {}
        self.writes += 1


class ndarray:
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, shape=(), dtype=float):
        r = empty(shape, dtype)
        self.__dict__.update(r.__dict__)

    # ---------------------------------------------------------------- makers
    @classmethod
    def conc(cls, a, dtype=None):
        self = cls.__new__(cls)
        self.a = a
        self.buf = None
        self._dt = dtype
        e = explore._ENGINES[-1] if explore._ENGINES else None
        if e is not None and e.log and a.base is None:
            e.log[-1].mine[id(a)] = a
        return self

    @classmethod
    def symb(cls, shape, fn, dtype=None):
        self = cls.__new__(cls)
        shape = tuple(_dim(d) for d in shape)
        if builtins.all(isinstance(d, int) for d in shape):
            a = _np.empty(shape, object)
            for i in _np.ndindex(*shape):
                a[i] = L(fn(i))
            return cls.conc(a, dtype)
        self.a = None
        self.buf = Buf(shape, fn)
        self.vshape = shape
        self.sel = tuple(('ax', k, 0, 1) for k in range(len(shape)))
        self._dt = dtype
        return self

    def _view(self, vshape, sel):
        r = ndarray.__new__(ndarray)
        r.a, r.buf, r.vshape, r.sel, r._dt = None, self.buf, tuple(vshape), tuple(sel), self._dt
        if builtins.all(isinstance(d, int) for d in vshape) and not self.is_conc:
            # all symbolic axes fixed: still a view (writes must reach the buffer)
            pass
        return r

    # ---------------------------------------------------------------- basics
    @property
    def is_conc(self):
        return self.a is not None

    @property
    def shape(self):
        return self.a.shape if self.a is not None else self.vshape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self.__dict__.update(r.__dict__)

    def resize(self, *s, refcheck=True):
        s = s[0] if len(s) == 1 and not _isint(s[0]) else s
        self.shape = tuple(s)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        if self._dt is not None:
            return self._dt
        if self.a is not None:
            if self.a.size == 0:
                return _DT['R']
            s = {x.sort if isinstance(x, T) else 'O' for x in self.a.flat}
            if 'O' in s:
                return _np.dtype(object)
            return _DT['R'] if 'R' in s else _DT['I'] if 'I' in s else _DT['B']
        e = self.el(tuple(tm.sym('%z', 'I') if isinstance(d, T) else 0 for d in self.vshape)) \
            if builtins.all(not isinstance(d, int) or d > 0 for d in self.vshape) else None
        return _DT[e.sort] if e is not None else _DT['R']

    flags = types.SimpleNamespace(c_contiguous=True)
    strides = property(lambda s: (_ for _ in ()).throw(Unsupported('strides')))

    def _bidx(self, idx):
        out = []
        for s in self.sel:
            if s[0] == 'fix':
                out.append(s[1])
            else:
                _, k, st, sp = s
                i = idx[k]
                if sp != 1:
                    i = i * sp
                out.append(i if (isinstance(st, int) and st == 0) else st + i)
        return tuple(out)

    def el(self, idx):
        """element at idx (ints or integer terms)"""
        if self.a is not None:
            return _conc_el(self.a, tuple(idx))
        if len(idx) != len(self.vshape):
            raise Unsupported('element arity')
        return self._read(self._bidx(idx))

    def _read(self, b):
        e = explore._ENGINES[-1] if explore._ENGINES else None
        if e is not None and e.log:
            e.log[-1].note(self.buf, b)
            return e.log[-1].read(self.buf, b)
        return self.buf.get(b)

    def snapshot(self):
        """a function idx -> term fixed at this moment"""
        if self.a is not None:
            a = self.a.copy()
            return lambda idx: _conc_el(a, tuple(idx))
        e = explore._ENGINES[-1] if explore._ENGINES else None
        if e is not None and e.log:
            e.log[-1].note(self.buf, tuple(x[1] if x[0] == 'fix' else None for x in self.sel))
        if e is not None and e.log and e.log[-1].has_writes(self.buf):
            loop = e.log[-1]
            b, fn = self.buf, loop.overlay(self.buf)
            return lambda idx: fn(self._bidx(idx))
        fn, memo, sel = self.buf.fn, self.buf.memo, self
        tmp = Buf(self.buf.shape, fn)
        tmp.memo = memo
        return lambda idx: tmp.get(self._bidx(idx))

    def copy(self, order=None):
        if self.a is not None:
            return ndarray.conc(self.a.copy(), self._dt)
        return ndarray.symb(self.vshape, self.snapshot(), self._dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        d = self.shape[0]
        if isinstance(d, T):
            raise Unsupported('len() of a symbolic dimension (use the lifted builtin)')
        return d

    def __iter__(self):
        d = self.shape[0]
        if isinstance(d, int):
            for i in range(d):
                yield self[i]
        else:
            for i in SymRange(0, d, 1, _depth=2):
                yield self[i]

    def __bool__(self):
        if self.a is not None and self.a.size == 1:
            return builtins.bool(self.a.reshape(-1)[0])
        if self.a is not None and self.a.size == 0:
            return False
        raise ValueError('truth value of an array is ambiguous')

    def __int__(self):
        return int(self.item())

    __index__ = __int__

    def __float__(self):
        return float(self.item())

    def item(self, *a):
        if a:
            return self.a.item(*a)
        if self.a is not None and self.a.size == 1:
            return self.a.reshape(-1)[0]
        raise ValueError('item() of array of size != 1')

    def tolist(self):
        if self.a is None:
            raise Unsupported('tolist of symbolic shape')
        return self.a.tolist()

    def fill(self, v):
        self[...] = v

    def __repr__(self):
        if self.a is not None:
            return f'sym{self.a!r}'
        return f'sym{self.shape}'

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, key):
        if self.a is not None:
            return self._cget(key)
        return self._sget(key)

    def _cget(self, key):
        key = _fork_slices(key, self.a.shape)
        k, symbolic = _conv_key(key)
        if not symbolic:
            r = self.a[k]
            if isinstance(r, _np.ndarray):
                return ndarray.conc(r, self._dt)
            return r
        r = _mask_view(self.a, k)
        if r is not None:
            return MaskSel(r[0], r[1], r[2], self._dt)
        # symbolic indices into a concrete array
        s = self._as_symb()
        return s._sget(key)

    def _as_symb(self):
        """same contents through the element-function interface (copy semantics)"""
        a = self.a.copy()
        r = ndarray.__new__(ndarray)
        r.a = None
        r.buf = Buf(a.shape, lambda idx: _conc_el(a, idx))
        r.vshape = a.shape
        r.sel = tuple(('ax', k, 0, 1) for k in range(a.ndim))
        r._dt = self._dt
        return r

    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = tuple(k.item() if isinstance(k, ndarray) and k.is_conc and k.ndim == 0 else k for k in key)
        nreal = builtins.sum(
            1 if not (isinstance(k, ndarray) or isinstance(k, _np.ndarray)) or _keydt(k).kind != 'b'
            else k.ndim
            for k in key if k is not None and k is not Ellipsis
        )
        if not builtins.any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        i = next(j for j, k in enumerate(key) if k is Ellipsis)
        fill = self.ndim - nreal
        if fill < 0:
            raise IndexError('too many indices for array')
        return key[:i] + (slice(None),) * fill + key[i + 1:]

    def _sget(self, key):
        key = self._norm_key(key)
        if builtins.any(_is_arrkey(k) for k in key):
            return self._fancy(key)
        vshape, sel, ax = [], list(self.sel), 0
        # map old axis -> new selector
        newsel = {}
        for k in key:
            if k is None:
                vshape.append(1)
                continue
            d = self.vshape[ax]
            if isinstance(k, slice):
                st, ln, sp = _slice(k, d)
                newsel[ax] = ('ax', len(vshape), st, sp)
                vshape.append(ln)
            else:
                newsel[ax] = ('fix', _index(k, d))
            ax += 1
        out = []
        for s in sel:
            if s[0] == 'fix':
                out.append(s)
            else:
                _, kk, st, sp = s
                n = newsel[kk]
                if n[0] == 'fix':
                    out.append(('fix', st + n[1] * sp))
                else:
                    out.append(('ax', n[1], st + n[2] * sp, sp * n[3]))
        r = self._view(vshape, out)
        if not vshape:
            return r.el(())
        return r

    def _fancy(self, key):
        """advanced indexing: masks over one axis and/or integer arrays"""
        arrs = [(j, k) for j, k in enumerate(key) if _is_arrkey(k)]
        if len(arrs) == 1 and _keydt(arrs[0][1]).kind == 'b':
            m = asarray(arrs[0][1])
            if m.ndim == 1:
                ax = builtins.sum(1 for k in key[: arrs[0][0]] if k is not None)
                d = self.vshape[ax]
                if not _same_dim(m.shape[0], d):
                    raise IndexError('boolean index did not match')
                mf = m.snapshot()
                if isinstance(d, int):
                    raise Unsupported('symbolic mask over a concrete axis of a symbolic array')
                fd = filter_dim(d, lambda i: tobool(mf((i,))))
                src = self.copy()
                shp = list(src.vshape)
                shp[ax] = fd
                full = ndarray.symb(shp, lambda idx: src.el(idx), self._dt)
                rest = tuple(slice(None) if j == arrs[0][0] else k for j, k in enumerate(key))
                if builtins.all(isinstance(k, slice) and k == slice(None) for k in rest):
                    return full
                # slices of a filtered axis must stay whole
                return full._sget(rest)
            if m.ndim == self.ndim and len(key) == 1:
                raise Unsupported('n-d boolean selection')
        # integer array indices, broadcast together, (all advanced indices adjacent or leading)
        if builtins.any(_keydt(k).kind == 'b' for _, k in arrs):
            raise Unsupported('mixed boolean/integer advanced indexing')
        idxs = [asarray(k) for _, k in arrs]
        bshape = _bshape(*[x.shape for x in idxs])
        snaps = [x.snapshot() for x in idxs]
        shapes = [x.shape for x in idxs]
        src = self.snapshot()
        first = arrs[0][0]
        pos = {j: n for n, (j, _) in enumerate(arrs)}
        if [j for j, _ in arrs] != list(range(first, first + len(arrs))):
            raise Unsupported('separated advanced indices')
        out_shape, plan, ax = [], [], 0
        for j, k in enumerate(key):
            if k is None:
                out_shape.append(1)
                continue
            d = self.vshape[ax]
            if j in pos:
                if j == first:
                    base = len(out_shape)
                    out_shape += list(bshape)
                plan.append(('arr', pos[j], d))
            elif isinstance(k, slice):
                st, ln, sp = _slice(k, d)
                plan.append(('sl', len(out_shape), st, sp))
                out_shape.append(ln)
            else:
                plan.append(('fix', _index(k, d)))
            ax += 1

        def fn(idx):
            bi = idx[base:base + len(bshape)]
            full = []
            for p in plan:
                if p[0] == 'arr':
                    v = snaps[p[1]](_bcast_idx(bi, shapes[p[1]], len(bshape)))
                    full.append(_wrapneg(v, p[2]))
                elif p[0] == 'sl':
                    full.append(p[2] + idx[p[1]] * p[3])
                else:
                    full.append(p[1])
            return src(tuple(full))

        return ndarray.symb(out_shape, fn, self._dt)

    def __setitem__(self, key, val):
        if self.a is not None:
            key = _fork_slices(key, self.a.shape)
            k, symbolic = _conv_key(key)
            if not symbolic:
                dt = self._dt
                if isinstance(val, (list, tuple)):
                    val = asarray(val)
                if isinstance(val, _np.ndarray):
                    val = asarray(val)
                if isinstance(val, ndarray):
                    if not val.is_conc:
                        raise Unsupported('symbolic-shape value into concrete array')
                    v = val.a
                    if v.ndim == 0:
                        v = v[()]
                    else:
                        v = _vec1(lambda x: _cast(x, dt))(v)
                    self.a[k] = v
                else:
                    self.a[k] = _cast(L(val), dt)
                _bump(self)
                return
            r = _mask_view(self.a, k)
            if r is not None:
                _mask_assign(r[0], r[1], r[2], val, self._dt)
                _bump(self)
                return
            kk = key if isinstance(key, tuple) else (key,)
            if builtins.all(_isint(x) or isinstance(x, T) for x in kk) and len(kk) == self.a.ndim:
                v = _cast(L(val), self._dt)
                ix = [_index(x, d) for x, d in zip(kk, self.a.shape)]
                for i in _np.ndindex(*self.a.shape):
                    c = and_(*[tm.eq(p, q) for p, q in zip(ix, i)])
                    self.a[i] = ite(c, v, self.a[i])
                _bump(self)
                return
            raise Unsupported('assignment through a symbolic index')
        self._sset(key, val)

    def _sset(self, key, val):
        key = self._norm_key(key)
        dt = self._dt
        val = asarray(val)
        vs = val.snapshot()
        arrs = [(j, k) for j, k in enumerate(key) if _is_arrkey(k)]
        maskax = None
        if arrs:
            if len(arrs) != 1:
                return self._sset_ints(key, val)
            k = asarray(arrs[0][1])
            if _keydt(arrs[0][1]).kind != 'b':
                return self._sset_ints(key, val)
            if k.ndim == 1:
                maskax = builtins.sum(1 for kk in key[: arrs[0][0]] if kk is not None)
                mf = k.snapshot()
                if not _same_dim(k.shape[0], self.vshape[maskax]):
                    raise IndexError('boolean index did not match')
                key = tuple(slice(None) if j == arrs[0][0] else kk for j, kk in enumerate(key))
                mask = lambda vi: tobool(mf((vi[maskax],)))
            elif k.ndim == self.ndim and len(key) == 1:
                mf = k.snapshot()
                if val.ndim != 0:
                    raise Unsupported('n-d masked assignment of arrays')
                key = (slice(None),) * self.ndim
                mask = lambda vi: tobool(mf(vi))
                maskax = -1
            else:
                raise Unsupported('mask shape')
        else:
            mask = None
        tgt = self._sget(key)
        if isinstance(tgt, T):
            tgt = None
            vshape, sel = (), []
            full = self
            # recompute the selector for a single element
            idx = [_index(k, d) for k, d in zip(key, self.vshape)]
            sel = [('fix', b) for b in self._bidx(tuple(idx))]
        else:
            vshape, sel = tgt.vshape, tgt.sel
        # broadcast value to the target view shape
        vsh = list(vshape)
        if maskax is not None and maskax >= 0:
            # the filtered axis matches either a filtered value, a scalar, or a value
            # that broadcasts over it
            d = vsh[maskax]
            fd = filter_dim(d, lambda i: tobool(mf((i,)))) if isinstance(d, T) else d
            tshape = list(vsh)
            tshape[maskax] = fd
        else:
            tshape = vsh
        _check_bcast(val.shape, tshape)
        nd = len(tshape)
        value = lambda vi: _cast(vs(_bcast_idx(vi, val.shape, nd)), dt)
        e = explore._ENGINES[-1] if explore._ENGINES else None
        if e is not None and e.log and not e.log[-1].owns(self.buf):
            e.log[-1].write(self.buf, tuple(sel), tuple(vsh), value, mask)
            return
        self.buf.set_fn(_overlay(self.buf.fn, self.buf.shape, tuple(sel), tuple(vsh), value, mask))

    def _sset_ints(self, key, val):
        # index arrays that are the identity over a filtered dimension
        arrs = [(j, k) for j, k in enumerate(key) if _is_arrkey(k)]
        if len(arrs) == 1:
            k = asarray(arrs[0][1])
            d = k.shape[0] if k.ndim == 1 else None
            if d in FILTERS:
                i = tm.sym('%fi', 'I')
                if k.el((i,)) is i:
                    base, mf = FILTERS[d]
                    m = ndarray.symb((base,), lambda idx: mf(idx[0]), _DT['B'])
                    nk = tuple(m if j == arrs[0][0] else kk for j, kk in enumerate(key))
                    return self._sset(nk, val)
        raise Unsupported('assignment through index arrays')

    # ---------------------------------------------------------------- arithmetic
    def __add__(a, b):
        return add(a, b)

    def __radd__(a, b):
        return add(b, a)

    def __sub__(a, b):
        return subtract(a, b)

    def __rsub__(a, b):
        return subtract(b, a)

    def __mul__(a, b):
        return multiply(a, b)

    def __rmul__(a, b):
        return multiply(b, a)

    def __truediv__(a, b):
        return divide(a, b)

    def __rtruediv__(a, b):
        return divide(b, a)

    def __floordiv__(a, b):
        return floor_divide(a, b)

    def __rfloordiv__(a, b):
        return floor_divide(b, a)

    def __mod__(a, b):
        return mod(a, b)

    def __rmod__(a, b):
        return mod(b, a)

    def __pow__(a, b):
        return power(a, b)

    def __rpow__(a, b):
        return power(b, a)

    def __neg__(a):
        return negative(a)

    def __pos__(a):
        return a

    def __abs__(a):
        return absolute(a)

    def __matmul__(a, b):
        return matmul(a, b)

    def __rmatmul__(a, b):
        return matmul(b, a)

    def __invert__(a):
        return logical_not(a) if a.dtype.kind == 'b' else _unsup('~int')

    def __and__(a, b):
        return logical_and(a, b)

    __rand__ = __and__

    def __or__(a, b):
        return logical_or(a, b)

    __ror__ = __or__

    def __xor__(a, b):
        return not_equal(a, b)

    def __eq__(a, b):
        return equal(a, b)

    def __ne__(a, b):
        return not_equal(a, b)

    def __lt__(a, b):
        return less(a, b)

    def __le__(a, b):
        return less_equal(a, b)

    def __gt__(a, b):
        return greater(a, b)

    def __ge__(a, b):
        return greater_equal(a, b)

    __hash__ = None

    def _iop(a, r):
        a[...] = r
        return a

    def __iadd__(a, b):
        return a._iop(add(a, b))

    def __isub__(a, b):
        return a._iop(subtract(a, b))

    def __imul__(a, b):
        return a._iop(multiply(a, b))

    def __itruediv__(a, b):
        return a._iop(divide(a, b))

    def __imod__(a, b):
        return a._iop(mod(a, b))

    def __ior__(a, b):
        return a._iop(logical_or(a, b))

    def __iand__(a, b):
        return a._iop(logical_and(a, b))

    # ---------------------------------------------------------------- methods
    @property
    def T(self):
        return transpose(self)

    @property
    def real(self):
        return self

    def transpose(self, *axes):
        if len(axes) == 1 and not _isint(axes[0]):
            axes = axes[0]
        return transpose(self, axes or None)

    def reshape(self, *s, order='C'):
        if len(s) == 1 and not (_isint(s[0]) or isinstance(s[0], T)):
            s = s[0]
        return reshape(self, tuple(s))

    def flatten(self, order='C'):
        if self.is_conc:
            return ndarray.conc(self.a.flatten(order), self._dt)
        return reshape(self, (-1,)).copy()

    def ravel(self, order='C'):
        return reshape(self, (-1,))

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def astype(self, t, order=None, copy=True):
        t = _mkdt(t)
        return _el1(lambda x: _cast(x, t), self, t)

    def view(self, *a):
        raise Unsupported('ndarray.view')

    def swapaxes(self, i, j):
        return swapaxes(self, i, j)

    def tobytes(self):
        raise Unsupported('tobytes')


def _unsup(w):
    raise Unsupported(w)


for _m in ('dot', 'sum', 'prod', 'mean', 'min', 'max', 'any', 'all', 'argmin', 'argmax',
           'cumsum', 'round', 'clip', 'nonzero', 'repeat', 'take', 'trace', 'std', 'conj',
           'sort', 'argsort', 'diagonal'):
    def _mk(name):
        def f(self, *a, **k):
            g = globals().get(name)
            if g is None:
                raise Unsupported('ndarray.' + name)
            return g(self, *a, **k)
        return f
    setattr(ndarray, _m, _mk(_m))


def _bump(arr):
    e = explore._ENGINES[-1] if explore._ENGINES else None
    if e is not None and e.log:
        if not e.log[-1].owns_conc(arr.a):
            raise Unsupported('write to a concrete array inside a generic loop iteration')


def _same_mask(a, b):
    return a.shape == b.shape and builtins.all(x is y for x, y in zip(a.flat, b.flat))


def _is_symmask(k):
    return isinstance(k, ndarray) and k.is_conc and k.dtype.kind == 'b' and k.ndim > 0


def _mask_view(a, key):
    """(view, mask, axis) when key is slices/ints plus exactly one symbolic boolean mask"""
    kk = key if isinstance(key, tuple) else (key,)
    ms = [j for j, x in enumerate(kk) if isinstance(x, (ndarray, _np.ndarray, list))]
    if len(ms) != 1 or not _is_symmask(kk[ms[0]]):
        return None
    j = ms[0]
    m = kk[j].a
    if builtins.any(isinstance(x, T) or isinstance(x, slice) and builtins.any(isinstance(y, T) for y in (x.start, x.stop, x.step))
                    for i, x in enumerate(kk) if i != j):
        return None
    new = kk[:j] + (slice(None),) * m.ndim + kk[j + 1:]
    nreal = builtins.sum(1 for x in new if x is not None and x is not Ellipsis)
    if nreal > a.ndim:
        raise IndexError('too many indices for array')
    if builtins.any(x is Ellipsis for x in kk[:j]):
        e = next(i for i, x in enumerate(new) if x is Ellipsis)
        new = new[:e] + (slice(None),) * (a.ndim - nreal) + new[e + 1:]
        j += a.ndim - nreal - 1
    v = a[new]
    ax = builtins.sum(1 for x in new[:j] if not _isint(x))
    if v.shape[ax:ax + m.ndim] != m.shape:
        raise IndexError('boolean index did not match indexed array')
    return v, _np.frompyfunc(tobool, 1, 1)(m), ax


def _mask_assign(view, m, ax, val, dt):
    nd = m.ndim
    if isinstance(val, MaskSel):
        if not _same_mask(m, val.m) or val.ax != ax or val.full.shape != view.shape:
            return _mask_assign(view, m, ax, val.force(), dt)
        full = val.full
    else:
        val = asarray(val)
        if not val.is_conc:
            raise Unsupported('symbolic-shape value into concrete array')
        v = val.a
        # the filtered axis must be broadcast (size 1 or absent)
        tail = view.ndim - ax - nd
        if v.ndim > tail:
            k = v.ndim - tail - 1
            if v.shape[k] != 1:
                view[(slice(None),) * ax + (_decide_mask(m),)] = _vec1(lambda x: _cast(L(x), dt))(v)
                return
            v = v.reshape(v.shape[:k] + (1,) * nd + v.shape[k + 1:])
        full = _np.broadcast_to(v, view.shape)
    for i in _np.ndindex(*view.shape):
        view[i] = ite(m[i[ax:ax + nd]], _cast(L(full[i]), dt), view[i])


class MaskSel:
    """a[.., mask, ..] for a symbolic mask over concrete axes: elementwise use only"""
    __array_ufunc__ = None

    def __init__(self, view, m, ax, dt):
        self.full, self.m, self.ax, self._dt = view.copy(), m, ax, dt

    @property
    def dtype(self):
        return self._dt

    def _map(self, f, *others):
        fs = []
        for o in others:
            if isinstance(o, MaskSel):
                if not _same_mask(o.m, self.m) or o.ax != self.ax or o.full.ndim != self.full.ndim:
                    raise Unsupported('selections by different masks')
                fs.append(o.full)
            else:
                o = asarray(o)
                if not o.is_conc:
                    raise Unsupported('mask selection with a symbolic shape')
                v, nd = o.a, self.m.ndim
                tail = self.full.ndim - self.ax - nd
                if v.ndim > tail:
                    k = v.ndim - tail - 1
                    if v.shape[k] != 1:
                        raise Unsupported('mask selection combined with an array')
                    v = v.reshape(v.shape[:k] + (1,) * nd + v.shape[k + 1:])
                fs.append(v)
        r = MaskSel.__new__(MaskSel)
        out = _np.frompyfunc(f, 1 + len(fs), 1)(self.full, *fs)
        r.full, r.m, r.ax, r._dt = out, self.m, self.ax, None
        return r

    def force(self):
        """decide every mask element (one path per pattern) and gather concretely"""
        if self.__dict__.get('_forced') is None:
            sel = _decide_mask(self.m)
            self._forced = ndarray.conc(_np.array(self.full[(slice(None),) * self.ax + (sel,)]), self._dt)
        return self._forced

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.force(), name)

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        return self.force()[k]


def _decide_mask(m):
    if m.size > 4:
        raise Unsupported('symbolic mask selection of more than four elements')
    sel = _np.empty(m.shape, bool)
    for i in _np.ndindex(*m.shape):
        c = tobool(L(m[i]))
        sel[i] = True if c is TRUE else False if c is FALSE else explore.branch(c)
    return sel


def _ms(op, swap=False):
    def g(a, b):
        try:
            return a._map((lambda x, y: op(L(y), L(x))) if swap else (lambda x, y: op(L(x), L(y))), b)
        except Unsupported:
            a = a.force()
            b = b.force() if isinstance(b, MaskSel) else b
            return op(b, a) if swap else op(a, b)
    return g


for _nm, _fn in [('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv),
               ('pow', operator.pow), ('mod', operator.mod)]:
    setattr(MaskSel, f'__{_nm}__', _ms(_fn))
    setattr(MaskSel, f'__r{_nm}__', _ms(_fn, True))
MaskSel.__neg__ = lambda a: a._map(lambda x: -L(x))
for _nm, _fn in [('lt', tm.lt), ('le', tm.le), ('gt', lambda x, y: tm.lt(y, x)), ('ge', lambda x, y: tm.le(y, x))]:
    setattr(MaskSel, f'__{_nm}__', _ms(_fn))


def _ms_setitem(self, k, value):
    if isinstance(k, MaskSel) and (isinstance(value, (T, builtins.int, builtins.float)) or _np.ndim(value) == 0):
        self.full = self._map(lambda x, c: ite(tobool(L(c)), L(value), L(x)), k).full
        self.__dict__['_forced'] = None
        return
    self.force()[k] = value
    self.full = None


MaskSel.__setitem__ = _ms_setitem


def _conc_el(a, idx):
    if builtins.all(_isint(i) for i in idx):
        return a[tuple(int(i) for i in idx)]
    # symbolic index into concrete storage: ite chain on the first symbolic axis
    for k, i in enumerate(idx):
        if isinstance(i, T):
            if i.op == 'num':
                return _conc_el(a, idx[:k] + (int(i.args[0]),) + idx[k + 1:])
            n = a.shape[k]
            r = None
            for j in range(n - 1, -1, -1):
                v = _conc_el(a, idx[:k] + (j,) + idx[k + 1:])
                r = v if r is None else ite(tm.eq(i, j), v, r)
            if r is None:
                raise IndexError('empty axis')
            return r
    raise Unsupported('index')


def _overlay(old, bshape, sel, vshape, value, mask):
    """element function after writing value through a view selector"""
    def fn(idx):
        conds, vi = [], [None] * len(vshape)
        for b, s in zip(idx, sel):
            if s[0] == 'fix':
                conds.append(tm.eq(L(b), L(s[1])))
            else:
                _, k, st, sp = s
                x = L(b) - L(st)
                if sp == 1:
                    v = x
                elif sp == -1:
                    v = -x
                else:
                    conds.append(tm.eq(tm.mod(x, num(sp)), num(0)))
                    v = tm.floordiv(x, num(sp))
                n = vshape[k]
                if not (sp == 1 and isinstance(st, int) and st == 0 and _whole(n, bshape, s, sel)):
                    conds.append(tm.le(num(0), v))
                    conds.append(tm.lt(v, L(n)))
                vi[k] = int(v.args[0]) if v.op == 'num' else v
        vi = [0 if v is None else v for v in vi]
        c = and_(*conds)
        if c is FALSE:
            return old(idx)
        if mask is not None:
            c = and_(c, mask(tuple(vi)))
        if c is FALSE:
            return L(old(idx))
        v = value(tuple(vi))
        if c is TRUE:
            return v
        return ite(c, v, L(old(idx)))

    return fn


def _whole(n, bshape, s, sel):
    j = next(i for i, x in enumerate(sel) if x is s)
    d = bshape[j]
    return (isinstance(n, int) and isinstance(d, int) and n == d) or n is d


def _is_arrkey(k):
    if isinstance(k, ndarray):
        return k.ndim > 0
    return isinstance(k, (_np.ndarray, list))


def _keydt(k):
    if isinstance(k, ndarray):
        return k.dtype
    return _np.asarray(k).dtype if not builtins.any(isinstance(x, T) for x in _np.ravel(_np.array(k, dtype=object))) else asarray(k).dtype


def _fork_slices(key, shape):
    """symbolic slice bounds over a short concrete axis: one path per value"""
    kk = key if isinstance(key, tuple) else (key,)
    if not builtins.any(isinstance(k, slice) and builtins.any(isinstance(x, T) and x.op != 'num' for x in (k.start, k.stop)) for k in kk):
        return key
    if builtins.any(k is None or k is Ellipsis or _is_arrkey(k) for k in kk):
        return key

    def bound(x, d):
        if not isinstance(x, T) or x.op == 'num':
            return x
        if tm.le(num(d, 'I'), x):
            return d
        for q in range(d):
            if tm.eq(x, num(q, 'I')):
                return q
        for q in range(1, d):
            if tm.eq(x, num(-q, 'I')):
                return -q
        return -d

    out = []
    for k, d in zip(kk, shape):
        if isinstance(k, slice) and isinstance(d, int) and d <= 12 and not isinstance(k.step, T):
            k = slice(bound(k.start, d), bound(k.stop, d), k.step)
        out.append(k)
    out = tuple(out)
    return out if isinstance(key, tuple) else out[0]


def _conv_key(key):
    """numpy-usable key for a concrete array; second result: contains symbolic parts"""
    def one(k):
        if isinstance(k, T):
            if k.op == 'num':
                return int(k.args[0]), False
            if k.op in ('true', 'false'):
                return k is TRUE, False
            return k, True
        if isinstance(k, ndarray):
            if not k.is_conc:
                return k, True
            dt = k.dtype
            if builtins.all(isinstance(x, T) and x.op in ('num', 'true', 'false') for x in k.a.flat):
                if dt.kind == 'b':
                    return _np.array([x is TRUE for x in k.a.flat], dtype=bool).reshape(k.a.shape), False
                return _np.array([int(x.args[0]) for x in k.a.flat], dtype=int).reshape(k.a.shape), False
            return k, True
        if isinstance(k, list):
            return one(asarray(k)) if builtins.any(isinstance(x, T) for x in k) else (k, False)
        if isinstance(k, slice):
            p = [k.start, k.stop, k.step]
            q = [int(x.args[0]) if isinstance(x, T) and x.op == 'num' else x for x in p]
            return slice(*q), builtins.any(isinstance(x, T) for x in q)
        return k, False

    if isinstance(key, tuple):
        r = [one(k) for k in key]
        return tuple(x for x, _ in r), builtins.any(s for _, s in r)
    return one(key)


def _index(k, d):
    """normalise an integer index along an axis of length d"""
    if isinstance(k, ndarray):
        k = k.item()
    if isinstance(k, _np.ndarray):
        k = k.item()
    if isinstance(d, T) and d in FILTERS:
        raise Unsupported('element of a filtered array')
    if _isint(k):
        k = int(k)
        if isinstance(d, int):
            if k < -d or k >= d:
                raise IndexError(f'index {k} is out of bounds for axis of size {d}')
            return k + d if k < 0 else k
        if k < 0:
            if not builtins.bool(tm.le(num(-k), d)):
                raise IndexError('out of bounds')
            return d + k
        if not builtins.bool(tm.lt(num(k), d)):
            raise IndexError('out of bounds')
        return k
    if isinstance(k, T):
        k = tm.tonum(k)
        if k.sort != 'I':
            raise IndexError('only integers, slices are valid indices')
        if k.op == 'num':
            return _index(int(k.args[0]), d)
        if builtins.bool(tm.lt(k, num(0))):
            if not builtins.bool(tm.le(-L(d), k)):
                raise IndexError('out of bounds')
            return k + d
        if not builtins.bool(tm.lt(k, L(d))):
            raise IndexError('out of bounds')
        return k
    raise Unsupported(f'index {type(k).__name__}')


def _wrapneg(v, d):
    return v


def _slice(s, d):
    """(start, length, step) of a basic slice over an axis of length d"""
    sp = 1 if s.step is None else (int(s.step) if not isinstance(s.step, T) else s.step)
    if isinstance(sp, T):
        sp = int(sp)
    if isinstance(d, int) and not isinstance(s.start, T) and not isinstance(s.stop, T):
        st, en, sp = slice(
            None if s.start is None else int(s.start),
            None if s.stop is None else int(s.stop), sp).indices(d)
        return st, len(range(st, en, sp)), sp
    if s == slice(None):
        return 0, d, 1
    if isinstance(d, T) and d in FILTERS:
        raise Unsupported('slice of a filtered array')
    n = L(d)

    def clamp(x, lo, hi):
        x = L(x)
        if builtins.bool(tm.lt(x, num(0))):
            x = x + n
        if builtins.bool(tm.lt(x, lo)):
            return lo
        if builtins.bool(tm.lt(hi, x)):
            return hi
        return x

    if sp > 0:
        st = num(0) if s.start is None else clamp(s.start, num(0), n)
        en = n if s.stop is None else clamp(s.stop, num(0), n)
        ln = en - st
        if sp != 1:
            ln = tm.floordiv(ln + (sp - 1), num(sp))
        if not builtins.bool(tm.le(num(0), ln)):
            ln = num(0)
    else:
        st = n - 1 if s.start is None else clamp(s.start, num(-1), n - 1)
        en = num(-1) if s.stop is None else clamp(s.stop, num(-1), n - 1)
        ln = st - en
        if sp != -1:
            ln = tm.floordiv(ln + (-sp - 1), num(-sp))
        if not builtins.bool(tm.le(num(0), ln)):
            ln = num(0)
    f = lambda x: int(x.args[0]) if x.op == 'num' else x
    return f(L(st)), f(ln), sp


def _bshape(*shapes):
    nd = builtins.max((len(s) for s in shapes), default=0)
    out = []
    for k in range(nd):
        d = 1
        for s in shapes:
            j = k - nd + len(s)
            if j < 0:
                continue
            e = s[j]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
            elif isinstance(e, T) and not isinstance(d, T) or isinstance(d, T) or d != e:
                if isinstance(e, int) and isinstance(d, int):
                    raise ValueError('operands could not be broadcast together')
                if not _same_dim(d, e):
                    # a symbolic length equal to one broadcasts
                    if isinstance(e, T) and e not in FILTERS and builtins.bool(tm.eq(e, num(1))):
                        continue
                    if isinstance(d, T) and d not in FILTERS and builtins.bool(tm.eq(d, num(1))):
                        d = e
                        continue
                    raise ValueError('operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def _check_bcast(src, dst):
    src = tuple(src)
    while len(src) > len(dst) and isinstance(src[0], int) and src[0] == 1:
        src = src[1:]
    if len(src) > len(dst):
        raise ValueError('could not broadcast input array')
    for a, b in zip(src[::-1], tuple(dst)[::-1]):
        if isinstance(a, int) and a == 1:
            continue
        if not _same_dim(a, b):
            if isinstance(a, T) and a not in FILTERS and builtins.bool(tm.eq(a, num(1))):
                continue
            raise ValueError('could not broadcast input array')


def _bcast_idx(idx, shape, nd):
    """index into an operand of `shape` for a result index of rank nd"""
    off = nd - len(shape)
    if off < 0:
        idx = (0,) * (-off) + tuple(idx)
        off = 0
    out = []
    for k, d in enumerate(shape):
        i = idx[off + k]
        if isinstance(d, int) and d == 1:
            i = 0
        elif isinstance(d, T) and isinstance(i, T) and d not in FILTERS:
            e = explore._ENGINES[-1] if explore._ENGINES else None
            if e is not None and builtins.any(p is tm.eq(d, num(1)) for p in e.pc()):
                i = 0
        out.append(i)
    return tuple(out)


# ------------------------------------------------------------------ elementwise
def _vec1(f):
    return _np.frompyfunc(f, 1, 1)


def _scalar(x):
    return x if isinstance(x, T) else tm.lift(x)


def _res(a, dt):
    if isinstance(a, _np.ndarray):
        return ndarray.conc(a, dt)
    return a


def _el1(f, x, dt=None):
    if isinstance(x, MaskSel):
        return x._map(f)
    s = _scalar(x) if not isinstance(x, (ndarray, list, tuple)) else None
    if s is not None:
        return f(s)
    x = asarray(x)
    if x.is_conc:
        r = _vec1(f)(x.a)
        r = r if isinstance(r, _np.ndarray) else _np.array(r, dtype=object)
        out = ndarray.conc(r, dt)
        if x.ndim == 0:
            return r[()]
        return out
    g = x.snapshot()
    return ndarray.symb(x.shape, lambda idx: f(g(idx)), dt)


def _el2(f, x, y, dt=None):
    if isinstance(x, MaskSel):
        return x._map(lambda p, q: f(L(p), L(q)), y)
    if isinstance(y, MaskSel):
        return y._map(lambda p, q: f(L(q), L(p)), x)
    sx = _scalar(x) if not isinstance(x, (ndarray, list, tuple)) else None
    sy = _scalar(y) if not isinstance(y, (ndarray, list, tuple)) else None
    if sx is not None and sy is not None:
        return f(sx, sy)
    x, y = asarray(x), asarray(y)
    if x.is_conc and y.is_conc:
        r = _np.frompyfunc(f, 2, 1)(x.a, y.a)
        if not isinstance(r, _np.ndarray):
            return r
        if r.ndim == 0:
            return r[()]
        return ndarray.conc(r, dt)
    sh = _bshape(x.shape, y.shape)
    gx, gy, nd = x.snapshot(), y.snapshot(), len(sh)
    hx, hy = x.shape, y.shape
    return ndarray.symb(
        sh, lambda idx: f(gx(_bcast_idx(idx, hx, nd)), gy(_bcast_idx(idx, hy, nd))), dt
    )


def _out(r, out, where=True):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


def _b2(f, dt=None):
    def g(x, y, out=None, where=True, dtype=None, **k):
        if where is not True:
            raise Unsupported('ufunc where=')
        return _out(_el2(f, x, y, dt), out)

    return g


def _u1(f, dt=None):
    def g(x, out=None, where=True, dtype=None, **k):
        if where is not True:
            raise Unsupported('ufunc where=')
        return _out(_el1(f, x, dt), out)

    return g


_B, _R, _I = _DT['B'], _DT['R'], _DT['I']
add = _b2(lambda a, b: or_(a, b) if a.sort == 'B' and b.sort == 'B' else tm.add(a, b))
subtract = _b2(tm.sub)
multiply = _b2(lambda a, b: and_(a, b) if a.sort == 'B' and b.sort == 'B' else tm.mul(a, b))
divide = true_divide = _b2(tm.div, _R)
floor_divide = _b2(tm.floordiv)
mod = remainder = _b2(tm.mod)
fmod = _b2(tm.fmod)
power = float_power = _b2(tm.power)
arctan2 = _b2(tm.atan2, _R)
hypot = _b2(lambda a, b: tm.sqrt(a * a + b * b), _R)
maximum = fmax = _b2(tm.maxv)
minimum = fmin = _b2(tm.minv)
equal = _b2(tm.eq, _B)
not_equal = _b2(lambda a, b: not_(tm.eq(a, b)), _B)
less = _b2(tm.lt, _B)
less_equal = _b2(tm.le, _B)
greater = _b2(lambda a, b: tm.lt(b, a), _B)
greater_equal = _b2(lambda a, b: tm.le(b, a), _B)
logical_and = bitwise_and = _b2(lambda a, b: and_(tobool(a), tobool(b)), _B)
logical_or = bitwise_or = _b2(lambda a, b: or_(tobool(a), tobool(b)), _B)
logical_and.reduce = lambda x, axis=0, dtype=None, out=None, keepdims=False: all(x, axis=axis, keepdims=keepdims)
logical_or.reduce = lambda x, axis=0, dtype=None, out=None, keepdims=False: any(x, axis=axis, keepdims=keepdims)
logical_xor = _b2(lambda a, b: not_(tm.eq(tobool(a), tobool(b))), _B)
logical_not = _u1(lambda a: not_(tobool(a)), _B)
invert = bitwise_not = logical_not
negative = _u1(lambda a: -tm.tonum(a))
absolute = abs = fabs = _u1(tm.absv)
sqrt = _u1(tm.sqrt, _R)
cbrt = _u1(lambda a: tm.power(a, num(Fraction(1, 3))), _R)
square = _u1(lambda a: a * a)
reciprocal = _u1(lambda a: tm.div(num(1), a), _R)
sin, cos, tan = _u1(tm.sin, _R), _u1(tm.cos, _R), _u1(tm.tan, _R)
arcsin, arccos, arctan = _u1(tm.asin, _R), _u1(tm.acos, _R), _u1(tm.atan, _R)
sinh, cosh, tanh = _u1(tm.sinh, _R), _u1(tm.cosh, _R), _u1(tm.tanh, _R)
exp, log = _u1(tm.exp, _R), _u1(tm.log, _R)
log10 = _u1(lambda a: tm.log(a) / tm.log(num(10)), _R)
sign = _u1(tm.sign)
floor = _u1(lambda a: toreal(tm.floor(a)) if a is not NAN else a)
ceil = _u1(lambda a: toreal(tm.ceil(a)) if a is not NAN else a)
trunc = fix = _u1(lambda a: toreal(tm.trunc(a)) if a is not NAN else a)
rint = _u1(lambda a: toreal(tm.rint(a)) if a is not NAN else a)
isnan = _u1(tm.isnan, _B)
isfinite = _u1(lambda a: not_(tm.isnan(a)), _B)
isinf = _u1(lambda a: FALSE, _B)
isreal = _u1(lambda a: TRUE, _B)
radians = deg2rad = _u1(lambda a: a * (PI / 180), _R)
degrees = rad2deg = _u1(lambda a: a * (num(180) / PI), _R)
conj = conjugate = real = _u1(lambda a: a)


def nan_to_num(x, copy=True, nan=0.0, **k):
    return _el1(lambda a: ite(tm.isnan(a), tm.L(nan), a), x)


def round(x, decimals=0, out=None):
    if decimals == 0:
        return rint(x)
    k = num(10 ** decimals) if decimals > 0 else num(Fraction(1, 10 ** -decimals))
    return _el1(lambda a: toreal(tm.rint(a * k)) / k, x)


round_ = around = round


def clip(x, lo, hi, out=None):
    r = x
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return _out(r, out)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _el2(lambda x, y: tm.le(tm.absv(x - y), L(atol) + L(rtol) * tm.absv(y)), a, b, _B)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all(isclose(a, b, rtol, atol))


# ------------------------------------------------------------------ constructors
float64 = _np.float64
float32 = _np.float32
floating = _np.floating
integer = _np.integer
number = _np.number
generic = _np.generic
int64, int32, int16, int8 = _np.int64, _np.int32, _np.int16, _np.int8
intp = _np.intp
uint8, uint16, uint32, uint64 = _np.uint8, _np.uint16, _np.uint32, _np.uint64
bool_ = _np.bool_
bool = _np.bool_
double = _np.float64
int_ = _np.int64
str_ = _np.str_
complex128 = _np.complex128
dtype = _np.dtype
def finfo(t):
    return _np.finfo(_mkdt(t))


def iinfo(t):
    return _np.iinfo(_mkdt(t))
nan = tm.NAN
NaN = nan
inf = tm.INF
pi = PI
e = tm.exp(num(1))
newaxis = None
errstate = _np.errstate
seterr = _np.seterr
issubdtype = _np.issubdtype
typing = _np.typing if hasattr(_np, 'typing') else None
random = _np.random
ndindex = _np.ndindex
s_ = _np.s_
index_exp = _np.index_exp


def asarray(x, dtype=None, order=None, copy=None):
    if isinstance(x, MaskSel):
        x = x.force()
    if isinstance(x, ndarray):
        if dtype is not None and _mkdt(dtype) != x.dtype:
            return x.astype(dtype)
        return x
    dt = None if dtype is None else _mkdt(dtype)
    if isinstance(x, T):
        a = _np.empty((), object)
        a[()] = _cast(x, dt)
        return ndarray.conc(a, dt)
    if isinstance(x, _np.ndarray):
        d = dt or (x.dtype if x.dtype.kind in 'fiub' else None)
        if x.dtype.kind not in 'fiubO':
            raise Unsupported(f'array of dtype {x.dtype}')
        a = _np.empty(x.shape, object)
        for i in _np.ndindex(*x.shape):
            a[i] = _cast(L(x[i]), d)
        return ndarray.conc(a, d)
    if isinstance(x, SymRange):
        if not isinstance(x.n, int):
            st, sp = x.start, x.step
            return ndarray.symb((x.n,), lambda idx: st + idx[0] * sp, _I)
        x = list(x)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (zip, map, types.GeneratorType)):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return ndarray.conc(_np.empty((0,), object), dt or _R)
        els = [asarray(v) for v in x]
        if builtins.any(not el.is_conc for el in els):
            r = stack(els, 0)
            return r if dt is None else r.astype(dt)
        sh = els[0].shape
        if builtins.any(el.shape != sh for el in els):
            raise ValueError('inhomogeneous shape')
        a = _np.empty((len(els),) + sh, object)
        d = dt or _join(*[el.dtype for el in els])
        for k, el in enumerate(els):
            a[k] = el.a if el.ndim else el.a[()]
        for i in _np.ndindex(*a.shape):
            a[i] = _cast(a[i], d)
        return ndarray.conc(a, d)
    v = tm.lift(x)
    if v is not None:
        return asarray(v, dtype)
    raise Unsupported(f'array from {type(x).__name__}')


def array(x, dtype=None, copy=True, ndmin=0, order=None, **k):
    r = asarray(x, dtype)
    if copy and r is x:
        r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def ascontiguousarray(x, dtype=None):
    r = asarray(x, dtype)
    return r if r.ndim else r.reshape((1,))


asfortranarray = asanyarray = ascontiguousarray
asanyarray = asarray


def copy(x, order=None):
    return asarray(x).copy()


def atleast_1d(*xs):
    r = []
    for x in xs:
        x = asarray(x)
        r.append(x.reshape((1,)) if x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = []
    for x in xs:
        x = asarray(x)
        r.append(x.reshape((1, 1)) if x.ndim == 0 else x[None, :] if x.ndim == 1 else x)
    return r[0] if len(r) == 1 else r


def atleast_3d(x):
    x = asarray(x)
    if x.ndim == 0:
        return x.reshape((1, 1, 1))
    if x.ndim == 1:
        return x[None, :, None]
    return x[:, :, None] if x.ndim == 2 else x


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(_dim(d) for d in s)
    if isinstance(s, ndarray):
        return tuple(_dim(d) for d in s.a.flat)
    return (_dim(s),)


def full(shape, v, dtype=None, order=None):
    shape = _shape(shape)
    va = asarray(v)
    dt = _mkdt(dtype) if dtype is not None else va.dtype
    if va.ndim == 0:
        v = _cast(va.a[()], dt)
        return ndarray.symb(shape, lambda idx: v, dt)
    r = ndarray.symb(shape, lambda idx: num(0, 'R'), dt)
    r[...] = va
    return r


def zeros(shape, dtype=float, order=None):
    return full(shape, 0, dtype or float)


def ones(shape, dtype=float, order=None):
    return full(shape, 1, dtype or float)


def empty(shape, dtype=float, order=None):
    """uninitialised memory: fresh unknown values"""
    shape = _shape(shape)
    dt = _mkdt(dtype)
    s = {'f': 'R', 'i': 'I', 'u': 'I', 'b': 'B'}.get(dt.kind, 'R')
    _n[0] += 1
    name = f'%uninit{_n[0]}'
    return ndarray.symb(shape, lambda idx: tm.app(name, *[L(i) for i in idx], sort=s), dt)


def zeros_like(x, dtype=None, shape=None, **k):
    x = asarray(x)
    return zeros(shape or x.shape, dtype or x.dtype)


def ones_like(x, dtype=None, shape=None, **k):
    x = asarray(x)
    return ones(shape or x.shape, dtype or x.dtype)


def empty_like(x, dtype=None, shape=None, **k):
    x = asarray(x)
    return empty(shape or x.shape, dtype or x.dtype)


def full_like(x, v, dtype=None, **k):
    x = asarray(x)
    return full(x.shape, v, dtype or x.dtype)


def eye(n, m=None, k=0, dtype=float):
    return asarray(_np.eye(n, m, k), dtype)


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def arange(*a, dtype=None):
    if builtins.all(not isinstance(x, (T, ndarray)) for x in a):
        return asarray(_np.arange(*a, dtype=dtype))
    a = [x.item() if isinstance(x, ndarray) else x for x in a]
    st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    st, en, sp = L(st), L(en), L(sp)
    if builtins.all(x.sort == 'I' for x in (st, en, sp)):
        if sp.op != 'num' or sp.args[0] != 1:
            raise Unsupported('arange with a symbolic range and step')
        n = en - st
        if not builtins.bool(tm.le(num(0), n)):
            n = num(0)
        r = ndarray.symb((n,), lambda idx: st + L(idx[0]), _I)
        return r if dtype is None else r.astype(dtype)
    raise Unsupported('arange over symbolic reals')


def linspace(a, b, num=50, endpoint=True, **k):
    a, b = L(a), L(b)
    n = _dim(num)
    den = toreal(L(n - 1 if endpoint else n))
    return ndarray.symb((n,), lambda idx: a + (b - a) * toreal(L(idx[0])) / den, _R)


# ------------------------------------------------------------------ shape manipulation
def transpose(x, axes=None):
    x = asarray(x)
    if x.is_conc:
        return ndarray.conc(x.a.transpose(axes) if axes is not None else x.a.T, x._dt)
    nd = x.ndim
    axes = tuple(range(nd))[::-1] if axes is None else tuple(int(i) % nd for i in axes)
    inv = {old: new for new, old in enumerate(axes)}
    sel = [s if s[0] == 'fix' else ('ax', inv[s[1]], s[2], s[3]) for s in x.sel]
    return x._view([x.vshape[i] for i in axes], sel)


def swapaxes(x, i, j):
    x = asarray(x)
    ax = list(range(x.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(x, ax)


def moveaxis(x, s, d):
    x = asarray(x)
    ax = [k for k in range(x.ndim) if k != s % x.ndim]
    ax.insert(d % x.ndim, s % x.ndim)
    return transpose(x, ax)


def rollaxis(x, axis, start=0):
    return moveaxis(x, axis, start)


def reshape(x, shape, order='C'):
    x = asarray(x)
    shape = _shape(shape)
    if x.is_conc and builtins.all(isinstance(d, int) for d in shape):
        return ndarray.conc(x.a.reshape(shape, order=order), x._dt)
    if order != 'C':
        raise Unsupported('reshape order')
    src = list(x.shape)
    # resolve -1
    if builtins.any(isinstance(d, int) and d == -1 for d in shape):
        shape = list(shape)
        k = shape.index(-1) if not builtins.any(isinstance(d, T) for d in shape) else next(
            i for i, d in enumerate(shape) if isinstance(d, int) and d == -1)
        have = list(src)
        for d in shape[:k] + shape[k + 1:]:
            hit = next((h for h in have if (h is d) or (isinstance(h, int) and isinstance(d, int) and h == d)), None)
            if hit is not None:
                have = [h for i, h in enumerate(have) if i != next(j for j, q in enumerate(have) if q is hit or (isinstance(q, int) and isinstance(hit, int) and q == hit))]
            elif isinstance(d, int) and d != 1:
                c = 1
                syms = []
                for h in have:
                    if isinstance(h, int):
                        c *= h
                    else:
                        syms.append(h)
                if c % d:
                    raise Unsupported('reshape -1 with symbolic factors')
                have = syms + ([c // d] if c // d != 1 else [])
        p = 1
        for h in have:
            p = p * h
        shape[k] = _dim(p) if isinstance(p, T) else p
        shape = tuple(shape)
    # match axes greedily, merging/splitting C-order groups
    return _reshape_sym(x, tuple(src), shape)


def _prodt(ds):
    p = 1
    for d in ds:
        p = p * d
    return p


def _eqdim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return tm.eq(L(a), L(b)) is TRUE or a is b or _polyeq(a, b)


def _polyeq(a, b):
    from . import normal
    try:
        return normal.equal(toreal(L(a)), toreal(L(b)))
    except Unsupported:
        return False


def _reshape_sym(x, src, dst):
    if not _eqdim(_prodt(src), _prodt(dst)):
        if not builtins.bool(tm.eq(L(_prodt(src)), L(_prodt(dst)))):
            raise ValueError('cannot reshape array')
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        gs, gd = [], []
        ps = pd = 1
        if i < len(src):
            gs.append(i)
            ps = src[i]
            i += 1
        if j < len(dst):
            gd.append(j)
            pd = dst[j]
            j += 1
        guard = 0
        while not _eqdim(ps, pd):
            guard += 1
            if guard > 12:
                raise Unsupported('reshape of symbolic shape')
            # extend the side that is "smaller": concrete compare, else the one w/o the symbol
            ext_src = _smaller(ps, pd)
            if ext_src and i < len(src):
                gs.append(i)
                ps = ps * src[i]
                i += 1
            elif j < len(dst):
                gd.append(j)
                pd = pd * dst[j]
                j += 1
            elif i < len(src):
                gs.append(i)
                ps = ps * src[i]
                i += 1
            else:
                raise Unsupported('reshape of symbolic shape')
        groups.append((gs, gd))
    # simple case: pure relabelling (each group has at most one non-1 axis on both sides) -> view
    simple = builtins.all(
        len([k for k in gs if not (isinstance(src[k], int) and src[k] == 1)]) <= 1
        and len([k for k in gd if not (isinstance(dst[k], int) and dst[k] == 1)]) <= 1
        for gs, gd in groups
    )
    if simple and not x.is_conc:
        m = {}
        for gs, gd in groups:
            a = [k for k in gs if not (isinstance(src[k], int) and src[k] == 1)]
            b = [k for k in gd if not (isinstance(dst[k], int) and dst[k] == 1)]
            if a:
                m[a[0]] = b[0] if b else None
        sel = []
        for s in x.sel:
            if s[0] == 'fix':
                sel.append(s)
            elif m.get(s[1]) is not None:
                sel.append(('ax', m[s[1]], s[2], s[3]))
            else:
                sel.append(('fix', s[2]))
        return x._view(dst, sel)
    g = x.snapshot()

    def fn(idx):
        out = [0] * len(src)
        for gs, gd in groups:
            # linear index within the group
            lin = 0
            for k in gd:
                lin = lin * dst[k] + idx[k]
            # decompose
            rem = lin
            for k in reversed(gs[1:]):
                if isinstance(src[k], int) and src[k] == 1:
                    continue
                out[k], rem = _divmod(rem, src[k])
            if gs:
                out[gs[0]] = rem
        return g(tuple(out))

    return ndarray.symb(dst, fn, x._dt)


def _divmod(a, d):
    """(a % d, a // d) with the shortcut for a = q*d + r, 0 <= r < d known"""
    if isinstance(a, int) and isinstance(d, int):
        return a % d, a // d
    a = L(a)
    if isinstance(d, int) and a.op == 'lin':
        c, parts = tm.linparts(a)
        q = {t: k / d for t, k in parts.items() if k % d == 0}
        rest = {t: k for t, k in parts.items() if k % d}
        if not rest:
            return int(c % d), tm.mklin(Fraction(c // d), q)
    m = tm.mod(a, L(d))
    q = tm.floordiv(a, L(d))
    return m, q


def _smaller(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if isinstance(a, int):
        return True
    if isinstance(b, int):
        return False
    # both symbolic: compare number of factors
    return len(tm.subterms([a])) <= len(tm.subterms([b]))


def ravel(x, order='C'):
    return asarray(x).ravel()


def squeeze(x, axis=None):
    x = asarray(x)
    if x.is_conc:
        return ndarray.conc(_np.squeeze(x.a, axis), x._dt)
    keep = []
    for k, d in enumerate(x.shape):
        if axis is not None:
            drop = k in ([axis % x.ndim] if _isint(axis) else [i % x.ndim for i in axis])
        elif isinstance(d, int):
            drop = d == 1
        elif d in FILTERS:
            raise Unsupported('squeeze of a filtered array')
        else:
            drop = builtins.bool(tm.eq(d, num(1)))
        if not drop:
            keep.append(k)
    return x[tuple(slice(None) if k in keep else 0 for k in range(x.ndim))]


def expand_dims(x, axis):
    x = asarray(x)
    if x.is_conc:
        return ndarray.conc(_np.expand_dims(x.a, axis), x._dt)
    axis = axis % (x.ndim + 1)
    return x[tuple([slice(None)] * axis + [None])]


def broadcast_to(x, shape):
    x = asarray(x)
    shape = _shape(shape)
    _check_bcast(x.shape, shape)
    g, h, nd = x.snapshot(), x.shape, len(shape)
    return ndarray.symb(shape, lambda idx: g(_bcast_idx(idx, h, nd)), x._dt)


def tile(x, reps):
    x = asarray(x)
    reps = tuple(_dim(r) for r in (reps if isinstance(reps, (tuple, list)) else (reps,)))
    while x.ndim < len(reps):
        x = x[None]
    reps = (1,) * (x.ndim - len(reps)) + reps
    if x.is_conc and builtins.all(isinstance(r, int) for r in reps):
        return ndarray.conc(_np.tile(x.a, reps), x._dt)
    g, sh = x.snapshot(), x.shape
    out = tuple(d if isinstance(r, int) and r == 1 else d * r for d, r in zip(sh, reps))

    def fn(idx):
        ii = []
        for i, d, r in zip(idx, sh, reps):
            if isinstance(r, int) and r == 1:
                ii.append(i)
            elif isinstance(d, int) and d == 1:
                ii.append(0)
            else:
                ii.append(_divmod(i, d)[0])
        return g(tuple(ii))

    return ndarray.symb(out, fn, x._dt)


def repeat(x, n, axis=None):
    x = asarray(x)
    n = _dim(n) if not isinstance(n, ndarray) else _unsup('repeat counts')
    if x.is_conc and isinstance(n, int):
        return ndarray.conc(_np.repeat(x.a, n, axis), x._dt)
    if axis is None:
        x, axis = x.ravel(), 0
    axis = axis % x.ndim
    g, sh = x.snapshot(), list(x.shape)
    d = sh[axis]
    sh[axis] = d * n if not (isinstance(d, int) and d == 1) else n

    def fn(idx):
        idx = list(idx)
        idx[axis] = 0 if isinstance(d, int) and d == 1 else tm.floordiv(L(idx[axis]), L(n))
        return g(tuple(idx))

    return ndarray.symb(sh, fn, x._dt)


def concatenate(xs, axis=0, out=None, dtype=None):
    xs = [asarray(x) for x in xs]
    dt = _join(*[x.dtype for x in xs])
    if axis is None:
        xs, axis = [x.ravel() for x in xs], 0
    if builtins.all(x.is_conc for x in xs):
        r = _np.concatenate([x.a for x in xs], axis)
        return ndarray.conc(_vec1(lambda v: _cast(v, dt))(r) if r.size else r, dt)
    nd = xs[0].ndim
    axis = axis % nd
    shape = list(xs[0].shape)
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError('all the input arrays must have same number of dimensions')
        for k in range(nd):
            if k != axis and not _same_dim(shape[k], x.shape[k]):
                raise ValueError('all the input array dimensions must match')
            if k != axis and isinstance(x.shape[k], int):
                shape[k] = x.shape[k]
    tot = 0
    offs = []
    for x in xs:
        offs.append(tot)
        if isinstance(x.shape[axis], T) and x.shape[axis] in FILTERS and len(xs) > 1:
            raise Unsupported('concatenation of filtered arrays')
        tot = tot + x.shape[axis]
    shape[axis] = tot
    gs = [x.snapshot() for x in xs]
    lens = [x.shape[axis] for x in xs]

    def fn(idx):
        i = idx[axis]
        if isinstance(i, int) and builtins.all(isinstance(o, int) for o in offs) and builtins.all(isinstance(l, int) for l in lens):
            for o, l, g in zip(offs, lens, gs):
                if i < o + l:
                    return _cast(g(idx[:axis] + (i - o,) + idx[axis + 1:]), dt)
            raise IndexError
        r = None
        for o, l, g in reversed(list(zip(offs, lens, gs))):
            j = L(i) - L(o)
            j = int(j.args[0]) if j.op == 'num' else j
            if isinstance(j, int) and (j < 0 or (isinstance(l, int) and j >= l)):
                if r is None and g is not gs[0]:
                    continue
                if j < 0:
                    continue
            c = tm.lt(L(i), L(o + l))
            if c is FALSE:
                continue
            v = _cast(g(idx[:axis] + (j,) + idx[axis + 1:]), dt)
            r = v if r is None else ite(c, v, r)
        return r

    return ndarray.symb(shape, fn, dt)


def stack(xs, axis=0, out=None):
    if isinstance(xs, ndarray):
        xs = list(xs)
    xs = [asarray(x) for x in xs]
    nd = xs[0].ndim + 1
    axis = axis % nd
    return concatenate([expand_dims(x, axis) for x in xs], axis)


def vstack(xs):
    xs = list(xs) if not isinstance(xs, (list, tuple)) else xs
    return concatenate([atleast_2d(x) for x in xs], 0)


row_stack = vstack


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def dstack(xs):
    return concatenate([atleast_3d(x) for x in xs], 2)


def column_stack(xs):
    return concatenate([x if x.ndim > 1 else x[:, None] for x in map(asarray, xs)], 1)


class _R_:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                if isinstance(k.step, complex):
                    n = int(builtins.abs(k.step))
                    parts.append(linspace(k.start or 0, k.stop, n))
                else:
                    parts.append(arange(k.start or 0, k.stop, k.step or 1))
            elif isinstance(k, str):
                raise Unsupported('r_ string')
            else:
                parts.append(atleast_1d(k))
        return concatenate(parts)


class _C_:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        return column_stack([atleast_1d(k) for k in key])


r_, c_ = _R_(), _C_()


def meshgrid(*xs, indexing='xy', **k):
    xs = [asarray(x).ravel() for x in xs]
    if len(xs) != 2:
        if not builtins.all(x.is_conc for x in xs):
            raise Unsupported('meshgrid')
        return [ndarray.conc(r, x._dt) for r, x in zip(_np.meshgrid(*[x.a for x in xs], indexing=indexing), xs)]
    x, y = xs
    gx, gy = x.snapshot(), y.snapshot()
    if indexing == 'xy':
        sh = (y.shape[0], x.shape[0])
        return [ndarray.symb(sh, lambda i: gx((i[1],)), x._dt), ndarray.symb(sh, lambda i: gy((i[0],)), y._dt)]
    sh = (x.shape[0], y.shape[0])
    return [ndarray.symb(sh, lambda i: gx((i[0],)), x._dt), ndarray.symb(sh, lambda i: gy((i[1],)), y._dt)]


def where(c, x=None, y=None):
    if x is None:
        return nonzero(c)
    c = _el1(tobool, c, _B) if not isinstance(c, (bool, _np.bool_)) else c
    xy = _el2(lambda a, b: _Pair(a, b), x, y) if False else None
    c, x, y = asarray(c), asarray(x), asarray(y)
    sh = _bshape(c.shape, x.shape, y.shape)
    gc, gx, gy, nd = c.snapshot(), x.snapshot(), y.snapshot(), len(sh)
    hc, hx, hy = c.shape, x.shape, y.shape
    dt = _join(x.dtype, y.dtype)
    r = ndarray.symb(
        sh,
        lambda i: _cast(ite(tobool(gc(_bcast_idx(i, hc, nd))), gx(_bcast_idx(i, hx, nd)), gy(_bcast_idx(i, hy, nd))), dt),
        dt,
    )
    return r if r.ndim else r.a[()] if r.is_conc else r


def nonzero(c):
    c = asarray(c)
    if c.is_conc:
        k, s = _conv_key(c if c.dtype.kind == 'b' else not_equal(c, 0))
        if s:       # symbolic entries: one path per outcome
            m = asarray(k).a if not isinstance(k, _np.ndarray) else k
            if m.size > 8:
                raise Unsupported('nonzero of symbolic concrete-shape array')
            k = _np.array([builtins.bool(tobool(e)) for e in m.reshape(-1)], dtype=bool).reshape(m.shape)
        return tuple(asarray(i) for i in _np.nonzero(k))
    if c.ndim != 1:
        raise Unsupported('nonzero of n-d symbolic array')
    g = c.snapshot()
    fd = filter_dim(c.shape[0], lambda i: tobool(g((i,))))
    return (ndarray.symb((fd,), lambda idx: idx[0], _I),)


# ------------------------------------------------------------------ reductions
def _reduce(f, init, x, axis=None, dt=None, keepdims=False, **k):
    x = asarray(x)
    if axis is None:
        if not x.is_conc:
            r = x
            for _ in range(x.ndim):
                r = _reduce(f, init, r, 0, dt)
            if keepdims:
                raise Unsupported('keepdims')
            return r
        r = init
        for v in x.a.flat:
            r = v if r is None else f(r, v)
        if r is None:
            raise ValueError('zero-size array to reduction operation')
        if keepdims:
            return asarray(r).reshape((1,) * x.ndim)
        return r if not isinstance(r, int) else L(r)
    if isinstance(axis, (tuple, list)):
        for ax in sorted([a % x.ndim for a in axis], reverse=True):
            x = _reduce(f, init, x, ax, dt)
        return x
    axis = axis % x.ndim
    d = x.shape[axis]
    if not isinstance(d, int):
        return _sym_reduce(f, init, x, axis, dt)
    g, sh = x.snapshot(), list(x.shape)
    del sh[axis]

    def fn(idx):
        r = init
        for j in range(d):
            v = g(tuple(idx[:axis]) + (j,) + tuple(idx[axis:]))
            r = v if r is None else f(r, v)
        return L(r) if r is not None else _unsup('empty reduction')

    if not sh:
        return fn(())
    r = ndarray.symb(sh, fn, dt)
    return expand_dims(r, axis) if keepdims else r


QUANT = []   # (bool symbol, kind, dim, fn)


def _sym_reduce(f, init, x, axis, dt):
    if f in (_fany, _fall):
        if x.ndim != 1:
            raise Unsupported('quantifier over an n-d array')
        g = x.snapshot()
        i = tm.sym('%fi', 'I')
        body = tobool(g((i,)))
        if f is _fany and body is FALSE:
            return FALSE
        if f is _fall and body is TRUE:
            return TRUE
        name = 'any' if f is _fany else 'all'
        b = tm.app(f'%{name}', L(x.shape[0]), sort='B') if False else tm.sym(f'%{name}{body.id}_{L(x.shape[0]).id if not isinstance(x.shape[0], int) else x.shape[0]}', 'B')
        if not builtins.any(q[0] is b for q in QUANT):
            QUANT.append((b, name, x.shape[0], lambda k: tobool(g((k,)))))
        return b
    raise Unsupported('reduction over a symbolic dimension')


_fadd = lambda a, b: tm.add(a, b)
_fmul = lambda a, b: tm.mul(a, b)
_fany = lambda a, b: or_(tobool(a), tobool(b))
_fall = lambda a, b: and_(tobool(a), tobool(b))


def sum(x, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(x, types.GeneratorType):
        x = list(x)
    return _out(_reduce(_fadd, num(0), x, axis, None, keepdims), out)


def prod(x, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(x, (list, tuple)) and builtins.all(_isint(v) or (isinstance(v, T) and v.sort == 'I') for v in x):
        r = 1
        for v in x:
            r = r * v
        return r
    return _reduce(_fmul, num(1), x, axis, None, keepdims)


def any(x, axis=None, out=None, keepdims=False):
    return _reduce(_fany, FALSE, x, axis, _B, keepdims)


def all(x, axis=None, out=None, keepdims=False):
    return _reduce(_fall, TRUE, x, axis, _B, keepdims)


def max(x, axis=None, out=None, keepdims=False, **k):
    return _reduce(tm.maxv, None, x, axis, None, keepdims)


def min(x, axis=None, out=None, keepdims=False, **k):
    return _reduce(tm.minv, None, x, axis, None, keepdims)


amax, amin, nanmax, nanmin = max, min, max, min


def mean(x, axis=None, **k):
    x = asarray(x)
    n = x.size if axis is None else x.shape[axis]
    return divide(sum(x, axis), n)


def average(x, axis=None, weights=None):
    if weights is None:
        return mean(x, axis)
    return divide(sum(multiply(x, weights), axis), sum(asarray(weights)))


def argmax(x, axis=None):
    return _arg(x, axis, lambda a, b: tm.lt(a, b))


def argmin(x, axis=None):
    return _arg(x, axis, lambda a, b: tm.lt(b, a))


def _arg(x, axis, better):
    x = asarray(x)
    if axis is None:
        x, axis = x.ravel(), 0
    axis = axis % x.ndim
    d = x.shape[axis]
    if not isinstance(d, int):
        raise Unsupported('arg reduction over symbolic dimension')
    g, sh = x.snapshot(), list(x.shape)
    del sh[axis]

    def fn(idx):
        best, bi = None, num(0)
        for j in range(d):
            v = g(tuple(idx[:axis]) + (j,) + tuple(idx[axis:]))
            if best is None:
                best = v
            else:
                c = better(best, v)
                best, bi = ite(c, v, best), ite(c, num(j), bi)
        return bi

    if not sh:
        return fn(())
    return ndarray.symb(sh, fn, _I)


def cumsum(x, axis=None, **k):
    x = asarray(x)
    if axis is None:
        x, axis = x.ravel(), 0
    if not x.is_conc:
        raise Unsupported('cumsum over symbolic shape')
    return ndarray.conc(_np.frompyfunc(tm.add, 2, 1).accumulate(x.a, axis), None)


def diff(x, n=1, axis=-1):
    x = asarray(x)
    for _ in range(n):
        ax = axis % x.ndim
        hi = tuple(slice(1, None) if k == ax else slice(None) for k in range(x.ndim))
        lo = tuple(slice(None, -1) if k == ax else slice(None) for k in range(x.ndim))
        x = subtract(x[hi], x[lo])
    return x


def trace(x, offset=0, axis1=0, axis2=1, **k):
    x = asarray(x)
    if offset or k:
        raise Unsupported('trace options')
    if x.ndim > 2:
        x = moveaxis(moveaxis(x, axis1 % x.ndim, 0), axis2 % x.ndim + (1 if axis2 % x.ndim < axis1 % x.ndim else 0), 1)
        r = None
        for i in range(builtins.min(x.shape[:2])):
            r = x[i, i] if r is None else add(r, x[i, i])
        return r
    r = num(0)
    for i in range(builtins.min(x.shape[:2])):
        r = tm.add(r, x[i, i])
    return r


def diag(x, k=0):
    x = asarray(x)
    if x.ndim == 1:
        n = x.shape[0]
        a = _np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                a[i, j] = x.a[i] if i == j else num(0, x.a[i].sort)
        return ndarray.conc(a, x._dt)
    return ndarray.conc(_np.diagonal(x.a, k).copy(), x._dt)


def diagonal(x, *a, **k):
    return ndarray.conc(_np.diagonal(asarray(x).a, *a, **k), None)


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return FALSE
    for p, q in zip(a.shape, b.shape):
        if not _same_dim(p, q):
            return FALSE
    return all(equal(a, b))


def shape(x):
    return asarray(x).shape


def ndim(x):
    return asarray(x).ndim


def size(x, axis=None):
    x = asarray(x)
    return x.size if axis is None else x.shape[axis]


def isscalar(x):
    return isinstance(x, T) or _np.isscalar(x)


def take(x, i, axis=None):
    x = asarray(x)
    if axis is None:
        return x.ravel()[i]
    return x[(slice(None),) * (axis % x.ndim) + (i,)]


def flip(x, axis=None):
    x = asarray(x)
    ax = range(x.ndim) if axis is None else [axis % x.ndim]
    return x[tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(x.ndim))]


def fliplr(x):
    return flip(x, 1)


def flipud(x):
    return flip(x, 0)


def rot90(x, k=1):
    k = k % 4
    x = asarray(x)
    if k == 0:
        return x
    if k == 2:
        return flip(x)
    if k == 1:
        return transpose(flip(x, 1))
    return flip(transpose(x), 1)


def roll(x, shift, axis=None):
    x = asarray(x)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported('roll of a flattened array')
        axis = 0
    axis %= x.ndim
    d = x.shape[axis]
    s = x.snapshot()
    shift = shift.item() if isinstance(shift, ndarray) else shift

    def fn(idx):
        if isinstance(d, int) and isinstance(shift, int) and not isinstance(idx[axis], T):
            k = (idx[axis] - shift) % d
        else:
            k = tm.mod(L(idx[axis]) - L(shift), L(d))
            k = int(k.args[0]) if k.op == 'num' else k
        return s(tuple(idx[:axis]) + (k,) + tuple(idx[axis + 1:]))
    return ndarray.symb(x.shape, fn, x._dt)


def ix_(*xs):
    out = []
    for k, x in enumerate(xs):
        x = asarray(x)
        if x.dtype.kind == 'b':
            raise Unsupported('ix_ of a mask')
        out.append(x.reshape(tuple(x.shape[0] if j == k else 1 for j in range(len(xs)))))
    return tuple(out)


def append(x, v, axis=None):
    x, v = asarray(x), asarray(v)
    if axis is None:
        return concatenate([x.ravel(), v.ravel()])
    return concatenate([x, v], axis)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if y.ndim != 1:
        raise Unsupported('trapezoid')
    d = diff(asarray(x)) if x is not None else dx
    return sum(multiply(d, divide(add(y[1:], y[:-1]), 2)))


def nansum(x, axis=None):
    return sum(where(isnan(x), 0., x), axis)


def nanmean(x, axis=None):
    return divide(nansum(x, axis), sum(where(isnan(x), 0., 1.), axis))


def nanmedian(x):
    """an uninterpreted function of the values"""
    return tm.app('nanmedian', *[toreal(e) for e in asarray(x).ravel().a])


def argsort(x, axis=-1, **k):
    """stable insertion sort, as numpy's for up to 16 elements"""
    x = asarray(x)
    if x.ndim != 1 or not isinstance(x.shape[0], int) or x.shape[0] > 5:
        raise Unsupported('argsort')
    e = [x.el((num(i),)) for i in range(x.shape[0])]
    out = []
    for i in range(len(e)):
        j = len(out)
        while j and builtins.bool(tm.lt(e[i], e[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return array(out)


def count_nonzero(x, axis=None):
    return sum(_el1(lambda a: ite(tobool(a), num(1), num(0)), x), axis)


def broadcast_shapes(*s):
    return _bshape(*[_shape(x) for x in s])


def delete(x, i, axis=None):
    x = asarray(x)
    if not isinstance(i, int) or not x.is_conc:
        raise Unsupported('delete')
    return ndarray.conc(_np.delete(x.a, i, axis), x._dt)


def insert(x, i, v, axis=None):
    x, v = asarray(x), asarray(v)
    if not x.is_conc or not v.is_conc or not isinstance(i, int):
        raise Unsupported('insert')
    return ndarray.conc(_np.insert(x.a, i, v.a if v.ndim else v.a[()], axis), x._dt)


def indices(dims):
    return asarray(_np.indices(dims))


# ------------------------------------------------------------------ linear algebra
def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    if b.ndim == 1:
        return _out(_tdot(a, b, 0), out)
    return _out(_tdot(a, b, b.ndim - 2), out)


def _tdot(a, b, bax):
    k = a.shape[-1]
    if not _same_dim(k, b.shape[bax]):
        raise ValueError('shapes not aligned')
    k = k if isinstance(k, int) else b.shape[bax]
    if not isinstance(k, int):
        raise Unsupported('dot over a symbolic dimension')
    ga, gb = a.snapshot(), b.snapshot()
    na = a.ndim - 1
    shb = [d for i, d in enumerate(b.shape) if i != bax]
    sh = list(a.shape[:-1]) + shb

    def fn(idx):
        ia, ib = tuple(idx[:na]), tuple(idx[na:])
        r = None
        for j in range(k):
            v = tm.mul(ga(ia + (j,)), gb(ib[:bax] + (j,) + ib[bax:]))
            r = v if r is None else tm.add(r, v)
        return num(0) if r is None else r

    if not sh:
        return fn(())
    return ndarray.symb(sh, fn)


def matmul(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if a.ndim == 1 or b.ndim == 1:
        raise Unsupported('matmul 1d/nd')
    return einsum('...ij,...jk->...ik', a, b)


def inner(a, b):
    a, b = asarray(a), asarray(b)
    return _tdot(a, b, b.ndim - 1)


vdot = inner


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return multiply(a[:, None], b[None, :])


def cross(a, b, axis=-1, **k):
    a, b = asarray(a), asarray(b)
    if axis not in (-1,) and not (a.ndim == 1 and b.ndim == 1):
        a, b = moveaxis(a, axis, -1), moveaxis(b, axis, -1)
    g = lambda x, i: x[..., i]
    c = [
        subtract(multiply(g(a, 1), g(b, 2)), multiply(g(a, 2), g(b, 1))),
        subtract(multiply(g(a, 2), g(b, 0)), multiply(g(a, 0), g(b, 2))),
        subtract(multiply(g(a, 0), g(b, 1)), multiply(g(a, 1), g(b, 0))),
    ]
    r = stack(c, -1)
    if axis not in (-1,) and r.ndim > 1:
        r = moveaxis(r, -1, axis)
    return r


def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ops = [asarray(o) for o in ops]
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        from collections import Counter
        c = Counter(lhs.replace(',', '').replace('.', ''))
        rhs = ('...' if '...' in lhs else '') + ''.join(sorted(x for x in c if c[x] == 1))
    # expand ellipsis
    nell = 0
    for s, o in zip(ins, ops):
        if '...' in s:
            nell = builtins.max(nell, o.ndim - (len(s) - 3))
    names = [chr(0x391 + i) for i in range(nell)]
    ins2 = []
    for s, o in zip(ins, ops):
        if '...' in s:
            m = o.ndim - (len(s) - 3)
            s = s.replace('...', ''.join(names[nell - m:]))
        if len(s) != o.ndim:
            raise ValueError('einsum: operand rank')
        ins2.append(s)
    rhs = rhs.replace('...', ''.join(names))
    dims = {}
    for s, o in zip(ins2, ops):
        for ch, d in zip(s, o.shape):
            if ch in dims and not (isinstance(dims[ch], int) and dims[ch] == 1):
                if not (isinstance(d, int) and d == 1) and not _same_dim(dims[ch], d):
                    raise ValueError('einsum: dimension mismatch')
            else:
                dims[ch] = d
    summed = [c for c in dims if c not in rhs]
    for c in summed:
        if not isinstance(dims[c], int):
            raise Unsupported('einsum sum over a symbolic dimension')
    gs = [o.snapshot() for o in ops]
    shs = [o.shape for o in ops]
    import itertools

    def fn(idx):
        env = dict(zip(rhs, idx))
        r = None
        for combo in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, combo))
            v = None
            for g, s, sh in zip(gs, ins2, shs):
                x = g(tuple(0 if isinstance(d, int) and d == 1 else env[c] for c, d in zip(s, sh)))
                v = x if v is None else tm.mul(v, x)
            r = v if r is None else tm.add(r, v)
        return num(0) if r is None else r

    sh = [dims[c] for c in rhs]
    if not sh:
        return fn(())
    return ndarray.symb(sh, fn)


class linalg:
    class LinAlgError(Exception):
        pass

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarray(x)
        if ord not in (None, 2, 'fro'):
            raise Unsupported('norm order')
        if axis is None and not x.is_conc:
            raise Unsupported('norm over symbolic shape')
        return sqrt(_reduce(_fadd, num(0), multiply(x, x), axis, None, keepdims))

    @staticmethod
    def det(x):
        x = asarray(x)
        n = x.shape[-1]
        if x.ndim == 2:
            return _det([[x[i, j] for j in range(n)] for i in range(n)])
        raise Unsupported('det of stacks')

    @staticmethod
    def inv(x):
        x = asarray(x)
        n = x.shape[-1]
        g, nd = x.snapshot(), x.ndim

        def fn(idx):
            lead = tuple(idx[:-2])
            m = [[g(lead + (i, j)) for j in range(n)] for i in range(n)]
            d = _det(m)
            i, j = idx[-2], idx[-1]
            mm = [[m[a][b] for b in range(n) if b != i] for a in range(n) if a != j]
            c = _det(mm) if n > 1 else num(1)
            return tm.div(c if (i + j) % 2 == 0 else -c, d)

        return ndarray.symb(x.shape, fn, _R)

    @staticmethod
    def solve(a, b):
        return dot(linalg.inv(a), b)

    @staticmethod
    def __getattr__(name):
        raise Unsupported('linalg.' + name)


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = None
    for j in range(n):
        if m[0][j].op == 'num' and m[0][j].args[0] == 0:
            continue
        v = tm.mul(m[0][j], _det([row[:j] + row[j + 1:] for row in m[1:]]))
        if j % 2:
            v = -v
        r = v if r is None else tm.add(r, v)
    return num(0, 'R') if r is None else r


def vectorize(f, *a, **k):
    raise Unsupported('np.vectorize')


# ------------------------------------------------------------------ generic loops
_EPOCH = [0]


class LoopLog:
    """writes performed by one generic iteration of a loop, per path"""

    def __init__(self, idx, parent, nconc):
        self.idx = idx
        self.parent = parent
        self.cur = []           # writes of the current path: (buf, sel, vshape, value, mask)
        self.done = []          # (pc, writes)
        self.mine = {}          # storage created by the current iteration
        self.reads = set()
        self.keep = {}
        _EPOCH[0] += 1
        self.epoch = _EPOCH[0]

    def owns(self, buf):
        return buf.born is not None and buf.born == self.epoch

    def owns_conc(self, a):
        while a.base is not None:
            a = a.base
        return id(a) in self.mine

    def note(self, buf, idx):
        if not self.owns(buf):
            self.reads.add((id(buf), idx))
            self.keep[id(buf)] = buf
        if self.parent is not None:
            self.parent.note(buf, idx)

    def has_writes(self, buf):
        return builtins.any(w[0] is buf for w in self.cur) or (
            self.parent is not None and self.parent.has_writes(buf))

    def overlay(self, buf):
        fn = self.parent.overlay(buf) if self.parent is not None else buf.get
        for b, sel, vs, val, mask in self.cur:
            if b is buf:
                fn = _overlay(fn, buf.shape, sel, vs, val, mask)
        return fn

    def read(self, buf, b):
        return L(self.overlay(buf)(b)) if self.has_writes(buf) else buf.get(b)

    def write(self, buf, sel, vshape, value, mask):
        self.cur.append((buf, sel, vshape, value, mask))


class SymRange:
    """range() with symbolic bounds.  Iterating executes the body for one generic
    iteration per feasible path; writes must touch only locations selected by the
    generic index on some axis and each such location is read only at that index
    (checked), which makes the iterations independent."""

    def __init__(self, start, stop, step, _depth=1):
        self.start, self.stop, self.step = _dim(start), _dim(stop), _dim(step)
        if not isinstance(self.step, int):
            raise Unsupported('symbolic step')
        if builtins.all(isinstance(v, int) for v in (self.start, self.stop)):
            self.n = len(range(self.start, self.stop, self.step))
        elif self.step == 1:
            self.n = L(self.stop) - L(self.start)
            self.n = int(self.n.args[0]) if self.n.op == 'num' else self.n
        else:
            raise Unsupported('symbolic range with step')
        self._depth = _depth

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return self.start + L(i) * self.step

    def __contains__(self, x):
        return and_(tm.le(L(self.start), L(x)), tm.lt(L(x), L(self.stop)))

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.start + k * self.step for k in range(self.n)])
        fr = sys._getframe(1)
        while fr is not None and fr.f_code.co_filename == __file__:
            fr = fr.f_back
        if fr is not None:
            _check_loop(fr)
        return self._gen()

    def _gen(self):
        e = explore.engine()
        i = fresh('k')
        rng = and_(tm.le(L(self.start), i), tm.lt(i, L(self.stop)))
        if rng is FALSE:
            return
        # zero iterations?
        fr = explore.Frame()
        lg = LoopLog(i, e.log[-1] if e.log else None, None)
        e.hyps.append(rng)
        e.cache.clear()
        e.frames.append(fr)
        e.log.append(lg)
        e.binders.append(i)
        if not e.feasible(TRUE):
            e.frames.pop(); e.log.pop(); e.binders.pop(); e.hyps.pop()
            return
        finished = False
        try:
            while True:
                fr.start()
                lg.cur = []
                lg.mine = {}
                _EPOCH[0] += 1
                lg.epoch = _EPOCH[0]
                try:
                    yield i
                except GeneratorExit:
                    e.poison = 'early exit from a loop over a symbolic range'
                    raise
                lg.done.append((list(fr.pc), lg.cur))
                e.paths += 1
                if e.paths > e.max_paths:
                    raise explore.PathLimit('too many loop paths')
                if not fr.advance():
                    break
            finished = True
        finally:
            e.frames.pop()
            e.log.pop()
            e.binders.pop()
            e.hyps.pop()
            e.cache.clear()
        if finished:
            _commit(e, lg, i, self.start, self.stop)


def _uses(t, i):
    return builtins.any(x is i for x in tm.subterms([t]))


def _commit(e, lg, i, lo, hi):
    """turn the per-path writes of a generic iteration into a whole-loop update"""
    bufs = []
    for pc, ws in lg.done:
        for w in ws:
            if not builtins.any(w[0] is b for b in bufs):
                bufs.append(w[0])
    for buf in bufs:
        # independence: each write selects axis ax at exactly index i
        ax = None
        for pc, ws in lg.done:
            for b, sel, vs, val, mask in ws:
                if b is not buf:
                    continue
                here = [k for k, s in enumerate(sel) if s[0] == 'fix' and isinstance(s[1], T)
                        and (s[1] is i or tm.sub(s[1], i).op == 'num')]
                if not here:
                    raise Unsupported('loop writes a location not selected by the loop index')
                ax = here[0] if ax is None else ax
                if ax not in here:
                    raise Unsupported('loop writes along different axes')
        off = None
        for pc, ws in lg.done:
            for b, sel, vs, val, mask in ws:
                if b is buf:
                    o = tm.sub(L(sel[ax][1]), i)
                    if off is not None and o is not off:
                        raise Unsupported('loop writes at several offsets')
                    off = o
        done = [(and_(*pc), [w for w in ws if w[0] is buf]) for pc, ws in lg.done]
        parent = lg.parent
        old = parent.overlay(buf) if parent is not None and parent.has_writes(buf) else buf.fn
        oldmemo = {}
        shape = buf.shape

        def fn(idx, done=done, old=old, ax=ax, off=off, shape=shape):
            j = tm.sub(L(idx[ax]), off)
            inside = and_(tm.le(L(lo), j), tm.lt(j, L(hi)))
            o = L(old(idx))
            r = o
            for pc, ws in done:
                if not ws:
                    continue
                # value at generic i, then substitute i := j
                g = old
                gi = tuple(idx[:ax]) + (tm.add(i, off),) + tuple(idx[ax + 1:])
                f2 = lambda ii: L(old(ii))
                for b, sel, vs, val, mask in ws:
                    f2 = _overlay(f2, shape, sel, vs, val, mask)
                v = L(f2(gi))
                v = tm.subst(v, {i: j})
                c = tm.subst(pc, {i: j})
                r = ite(c, v, r)
            return ite(inside, r, o)

        # reads of buf inside the loop at other iterations' locations
        _check_reads(lg, buf, i, ax, off)
        if parent is not None:
            raise Unsupported('nested symbolic loops')
        buf.fn, buf.memo = fn, {}
        buf.writes += 1


def _check_reads(lg, buf, i, ax, off):
    """every read of a written array happens at the location of the own iteration"""
    here = tm.add(i, off)
    for bid, idx in lg.reads:
        if bid == id(buf):
            k = idx[ax]
            if k is None or L(k) is not here:
                raise Unsupported('loop reads a location another iteration may write')


_LOOPCACHE = {}


def _check_loop(fr):
    """static check of the loop body in the calling frame's bytecode: no loop-carried
    locals, not a comprehension"""
    code, lasti = fr.f_code, fr.f_lasti
    key = (code, lasti)
    r = _LOOPCACHE.get(key)
    if r is None:
        r = _analyse_loop(code, lasti)
        _LOOPCACHE[key] = r
    if r != 'ok':
        raise Unsupported(r)


def _analyse_loop(code, lasti):
    ins = list(dis.get_instructions(code))
    start = next((k for k, x in enumerate(ins) if x.offset >= lasti), None)
    fi = next((k for k in range(start, len(ins)) if ins[k].opname == 'FOR_ITER'), None)
    if fi is None:
        return 'iteration outside of a for statement'
    end_off = ins[fi].argval
    body = [x for x in ins[fi + 1:] if x.offset < end_off]
    stored, carried = set(), set()
    all_stored = {x.argval for x in body if x.opname == 'STORE_FAST'} | {
        y for x in body if x.opname == 'STORE_FAST_STORE_FAST' for y in x.argval
    } | {x.argval[0] for x in body if x.opname == 'STORE_FAST_LOAD_FAST'}
    for x in body:
        if x.opname in ('LIST_APPEND', 'SET_ADD', 'MAP_ADD'):
            return 'comprehension over a symbolic range'
        if x.opname in ('LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR'):
            if x.argval in all_stored and x.argval not in stored:
                carried.add(x.argval)
        elif x.opname == 'LOAD_FAST_LOAD_FAST':
            for y in x.argval:
                if y in all_stored and y not in stored:
                    carried.add(y)
        elif x.opname == 'STORE_FAST':
            stored.add(x.argval)
        elif x.opname == 'STORE_FAST_STORE_FAST':
            stored.update(x.argval)
        elif x.opname == 'STORE_FAST_LOAD_FAST':
            stored.add(x.argval[0])
            if x.argval[1] in all_stored and x.argval[1] not in stored:
                carried.add(x.argval[1])
        elif x.opname in ('STORE_DEREF', 'STORE_GLOBAL'):
            return 'loop stores to a closure variable'
    if carried:
        return 'loop-carried locals: ' + ', '.join(sorted(carried))
    # stored locals must not be read after the loop before being stored again
    seen = set()
    for x in ins:
        if x.offset < end_off:
            continue
        if x.opname in ('LOAD_FAST', 'LOAD_FAST_CHECK'):
            if x.argval in all_stored and x.argval not in seen:
                return f'loop-local {x.argval} escapes the loop'
        elif x.opname == 'STORE_FAST':
            seen.add(x.argval)
    return 'ok'


# ------------------------------------------------------------------ unsupported names
def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)

    def f(*a, **k):
        raise Unsupported('numpy.' + name)

    f.__name__ = name
    return f


class MaskedArray:
    """np.ma.masked_array: the data and the mask kept side by side"""
    __array_ufunc__ = None

    def __init__(self, data, mask=False, fill_value=None, **kw):
        if kw:
            raise Unsupported('masked_array ' + str(sorted(kw)))
        self.data, self.mask, self.fill_value = asarray(data), mask, fill_value

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('masked_array.' + k)


class _Ma:
    masked_array = MaskedArray
    array = MaskedArray

    @staticmethod
    def getdata(a):
        return a.data if isinstance(a, MaskedArray) else a

    def __getattr__(self, k):
        raise Unsupported('np.ma.' + k)


ma = _Ma()


add.accumulate = cumsum

# a scalar of numpy takes the shape methods of an array
T.reshape = lambda self, *s: asarray(self).reshape(*s)
T.ravel = T.flatten = lambda self, *a: asarray(self).reshape((1,))
