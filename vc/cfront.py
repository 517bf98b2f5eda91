"""C front end: executes the clang AST of a CPython extension module of /repo symbolically.

The AST is taken from /repo's current source on every run (cached by content).  Doubles are
mathematical reals, integers mathematical integers.  The Python and numpy C-API calls of the
wrappers (argument parsing, allocation, error reporting) are modelled below; all other
functions, the argument converter included, are executed from their source.

Loops: with a small constant trip count they are executed; otherwise one generic iteration is
executed over all its paths and its writes become a range write (offsets affine in the loop
index, iterations independent: checked).  Scalars carried from one iteration to the next are
accepted when an increment by a constant (verified on every path) or a value unchanged after
the first iteration (verified) explains them.  Loops that only add a constant to a variable
until a bound is passed are accelerated exactly."""
import hashlib
import json
import os
import pickle
import subprocess
import sysconfig

import numpy as np

from . import terms as tm, snp, explore
from .terms import T, TRUE, FALSE, Unsupported, and_, or_, not_, ite, num, app, L, NAN

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GENERIC = 24           # constant loops longer than this are treated generically


# ------------------------------------------------------------------ the AST
def _sources(src):
    d = os.path.dirname(src)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(('.c', '.h')))


def load(src):
    """-> dict(functions, variables, enums, records, methods) of a translation unit"""
    h = hashlib.sha256(b'4')
    for f in _sources(src):
        with open(f, 'rb') as g:
            h.update(f.encode() + g.read())
    cache = os.path.join(VERIF, '.cache', 'ast-' + h.hexdigest()[:24])
    try:
        with open(cache, 'rb') as f:
            return pickle.load(f)
    except Exception:
        pass
    cc = next((c for c in ('/usr/bin/clang-18', '/usr/bin/clang') if os.path.exists(c)), 'clang')
    r = subprocess.run([cc, '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-DNDEBUG', '-I' + sysconfig.get_paths()['include'],
                        '-I' + np.get_include(), src], capture_output=True)
    if r.returncode or not r.stdout:
        raise Unsupported('clang: ' + r.stderr.decode()[-300:])
    tu = json.loads(r.stdout)
    fn, var, enums, rec, methods = {}, {}, {}, {}, {}
    for n in tu['inner']:
        k, nm = n['kind'], n.get('name')
        if k == 'FunctionDecl' and any(c['kind'] == 'CompoundStmt' for c in n.get('inner', ())):
            fn[nm] = n
        elif k == 'VarDecl':
            var[nm] = n
        elif k == 'RecordDecl' and nm and 'inner' in n:
            rec[nm] = [(c['name'], c['type'].get('desugaredQualType', c['type']['qualType'])) for c in n['inner'] if c['kind'] == 'FieldDecl' and 'name' in c]
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', ()):
                if c['kind'] != 'EnumConstantDecl':
                    continue
                e = [x for x in c.get('inner', ()) if 'value' in x]
                v = int(e[0]['value']) if e else v + 1
                enums[c['name']] = v
    for nm, n in var.items():
        if n['type']['qualType'].startswith('PyMethodDef['):
            for row in n['inner'][0].get('inner', ()) or n['inner'][0].get('array_filler', ()):
                s, f = _find(row, 'StringLiteral'), _find(row, 'DeclRefExpr')
                if s is not None and f is not None:
                    methods[json.loads(s['value'])] = f['referencedDecl']['name']
    # only what the methods reach
    keep, todo, vkeep = {}, list(methods.values()), {}
    while todo:
        nm = todo.pop()
        if nm in keep or nm not in fn or nm.startswith(('Py', '_Py')):
            continue
        keep[nm] = _prune(fn[nm])
        for x in _names(fn[nm]):
            todo.append(x)
            if x in var and not x.startswith(('Py', '_Py')):
                vkeep[x] = _prune(var[x])
    out = dict(functions=keep, variables=vkeep, enums=enums, records=rec, methods=methods, src=src)
    os.makedirs(os.path.dirname(cache), exist_ok=True)
    tmp = f'{cache}.{os.getpid()}'
    with open(tmp, 'wb') as f:
        pickle.dump(out, f)
    os.replace(tmp, cache)
    return out


def _find(n, kind):
    if not isinstance(n, dict):
        return None
    if n.get('kind') == kind:
        return n
    for c in n.get('inner', ()):
        r = _find(c, kind)
        if r is not None:
            return r
    return None


def _names(n):
    out = set()
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        if x.get('kind') == 'DeclRefExpr':
            out.add(x['referencedDecl'].get('name'))
        st += x.get('inner', ())
        st += x.get('array_filler', ())
    return out


def _ty(t):
    return t.get('desugaredQualType', t.get('qualType', '')) if t else ''


def _prune(n):
    if not n:
        return None
    r = {'kind': n.get('kind')}
    for k in ('id', 'name', 'opcode', 'value', 'castKind', 'isArrow', 'isPostfix', 'declId', 'targetLabelDeclId', 'hasElse', 'isDefault'):
        if k in n:
            r[k] = n[k]
    if 'type' in n:
        r['type'] = _ty(n['type'])
    if 'argType' in n:
        r['argType'] = _ty(n['argType'])
    if 'referencedDecl' in n:
        d = n['referencedDecl']
        r['ref'] = (d.get('id'), d.get('name'), d.get('kind'))
    b = n.get('range', {}).get('begin', {})
    b = b.get('expansionLoc', b)
    if 'line' in b:
        r['line'] = b['line']
    if 'inner' in n:
        r['inner'] = [_prune(c) for c in n['inner']]
    if 'array_filler' in n:
        r['array_filler'] = [_prune(c) for c in n['array_filler']]
    return r


# ------------------------------------------------------------------ memory
class CarriedRead(Exception):
    def __init__(self, cell):
        self.cell = cell


class Cell:
    """a scalar variable (or a structure field)"""
    __slots__ = ('v', 'ty', 'state')

    def __init__(self, v=None, ty=''):
        self.v, self.ty, self.state = v, ty, None

    def load(self):
        if self.state == 'poison':
            raise CarriedRead(self)
        if self.v is UNINIT:
            raise Unsupported('read of an uninitialised variable')
        return self.v

    def store(self, v):
        self.v, self.state = v, None


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()
_COUNT = [0]


def _fresh(p, sort='I'):
    _COUNT[0] += 1
    return tm.sym(f'{p}!{_COUNT[0]}', sort)


def _int(t):
    """python int when constant"""
    if isinstance(t, T) and t.op == 'num' and t.args[0].denominator == 1:
        return int(t.args[0])
    if isinstance(t, (bool, np.integer, np.bool_)):
        return int(t)
    return t


def lin(t):
    """linear form of an integer term: ({atom: coefficient}, constant)"""
    t = _int(t)
    if isinstance(t, int):
        return {}, t
    if t.op == 'lin':
        a = t.args
        if any(x.denominator != 1 for x in a[2::2]) or a[0].denominator != 1:
            raise Unsupported('fractional offset')
        return {x: int(k) for x, k in zip(a[1::2], a[2::2])}, int(a[0])
    return {t: 1}, 0


def unlin(co, c):
    t = num(c, 'I')
    for x, k in co.items():
        t = tm.add(t, tm.mul(num(k, 'I'), x))
    return _int(t)


def match(off, c, d):
    """off == c*j + d  ->  j (term or int), None when impossible for every j"""
    co, k = lin(tm.sub(L(off), L(d)) if isinstance(off, T) or isinstance(d, T) else off - d)
    if any(v % c for v in co.values()):
        raise Unsupported('offset does not follow the stride of an earlier loop')
    if k % c:
        return None
    return unlin({x: v // c for x, v in co.items()}, k // c)


class Buf:
    """memory as a function of the element offset"""

    def __init__(self, name, base, sort='R', conc=None):
        self.name, self.base, self.sort = name, base, sort
        self.top = {}                # newest concrete cells
        self.layers = []             # older: ('cells', dict) | ('rng', c, d, lo, hi, fn)
        self.size = conc

    def push(self, layer):
        if self.top:
            self.layers.append(('cells', self.top))
            self.top = {}
        self.layers.append(layer)

    def snapshot(self):
        return dict(self.top), list(self.layers)

    def restore(self, s):
        self.top, self.layers = dict(s[0]), list(s[1])

    def put(self, off, v):
        off = _int(off)
        if isinstance(off, int):
            self.top[off] = v
        else:
            self.push(('rng', 1, off, 0, 1, lambda j, v=v: v))

    def get(self, off):
        off = _int(off)
        if isinstance(off, int) and off in self.top:
            return self.top[off]
        if not isinstance(off, int) and self.top:
            return _over(off, self.top, lambda: self._old(off, len(self.layers) - 1), self.sort)
        return self._old(off, len(self.layers) - 1)

    def _old(self, off, k):
        while k >= 0:
            ly = self.layers[k]
            if ly[0] == 'cells':
                if isinstance(off, int):
                    if off in ly[1]:
                        return ly[1][off]
                else:
                    return _over(off, ly[1], lambda: self._old(off, k - 1), self.sort)
                k -= 1
                continue
            _, c, d, lo, hi, fn = ly
            j = match(off, c, d)
            if j is None:
                k -= 1
                continue
            ins = and_(tm.le(L(lo), L(j)), tm.lt(L(j), L(hi)))
            if ins is FALSE:
                k -= 1
                continue
            if ins is not TRUE and explore.active() and explore.engine().frames and _implied(ins):
                ins = TRUE
            v = fn(j)
            if ins is TRUE:
                return v
            o = self._old(off, k - 1)
            return ite(ins, _as(v, self.sort), _as(o, self.sort))
        return self.base(off)


def _implied(c):
    e = explore.engine()
    return not e.feasible(not_(c))


def _as(v, sort):
    v = L(v)
    if sort == 'B':
        return tm.tobool(v)
    return tm.toreal(v) if sort == 'R' else v


def _meet(off, o):
    """condition (reduced by the common divisor) under which a symbolic offset equals o"""
    import math
    co, k = lin(tm.sub(L(off), L(o)))
    g = 0
    for v in co.values():
        g = math.gcd(g, v)
    if not g:
        return TRUE if k == 0 else FALSE
    if k % g:
        return FALSE
    c = tm.eq(L(unlin({x: v // g for x, v in co.items()}, k // g)), num(0, 'I'))
    if c is not TRUE and c is not FALSE and explore.active() and explore.engine().frames and not explore.engine().feasible(c):
        return FALSE
    return c


def _over(off, cells, old, sort):
    """value at a symbolic offset: one of the cells or the older value (a thunk)"""
    hits = [(c, v) for o, v in cells.items() for c in [_meet(off, o)] if c is not FALSE]
    for c, v in hits:
        if c is TRUE:
            return v
    r = old()
    for c, v in hits:
        r = ite(c, _as(v, sort), _as(r, sort))
    return r


class Ptr:
    __slots__ = ('buf', 'off')

    def __init__(self, buf, off=0):
        self.buf, self.off = buf, _int(off)

    def add(self, k):
        return Ptr(self.buf, _int(tm.add(L(self.off), L(k))) if isinstance(self.off, T) or isinstance(k, T) else self.off + k)


class Ref:
    """address of a variable or structure"""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class Struct:
    def __init__(self, fields):
        self.f = fields


class Func:
    def __init__(self, name):
        self.name = name


class PyNone:
    pass


NONE = PyNone()


class PyArr:
    """a numpy array object as the C code sees it"""

    def __init__(self, shape, typ, buf, src=None):
        self.shape, self.typ, self.buf, self.src = shape, typ, buf, src
        self.dims = Buf('dims', lambda o: (_ for _ in ()).throw(Unsupported('dims out of range')), 'I')
        for k, d in enumerate(shape):
            self.dims.top[k] = _int(d)


TYPES = {'b': 0, 'f8': 12, 'f4': 11, 'i8': 7, 'i4': 5}
SORT = {0: 'B', 12: 'R', 11: 'R', 7: 'I', 5: 'I'}
DT = {0: np.dtype(bool), 12: np.dtype(float), 7: np.dtype(int), 11: np.dtype('f4'), 5: np.dtype('i4')}


def from_py(x):
    if x is None:
        return NONE
    if isinstance(x, snp.ndarray):
        shape = tuple(_int(d) for d in x.shape)
        dt = x.dtype
        if dt.kind == 'O':
            raise Unsupported('object array passed to C')
        typ = 0 if dt.kind == 'b' else TYPES.get(f'{dt.kind}{dt.itemsize}')
        inner = [d for d in shape[1:]]
        if any(not isinstance(d, int) for d in inner):
            raise Unsupported('symbolic inner dimension')
        w = int(np.prod(inner)) if inner else 1
        sort = SORT.get(typ, 'R')

        def base(off, x=x, inner=inner, w=w, shape=shape):
            if not shape:
                if off != 0:
                    raise Unsupported('read outside of a scalar array')
                return L(x.a[()] if x.is_conc else x.el(()))
            co, k = lin(off)
            if any(v % w for v in co.values()):
                raise Unsupported('offset is not affine in rows')
            row = unlin({a: v // w for a, v in co.items()}, k // w)
            rest = np.unravel_index(k % w, inner) if inner else ()
            if isinstance(row, int) and isinstance(shape[0], int) and not 0 <= row < shape[0]:
                raise Unsupported('read outside of an array')
            if x.is_conc:
                if not isinstance(row, int):
                    raise Unsupported('symbolic row of a fixed array')
                return L(x.a[(row,) + tuple(int(r) for r in rest)])
            return L(x.el((L(row),) + tuple(num(int(r), 'I') for r in rest)))
        return PyArr(shape, typ, Buf('arg', base, sort), x)
    if isinstance(x, np.ndarray):
        return from_py(snp.asarray(x))
    if isinstance(x, tuple):
        return tuple(from_py(y) for y in x)
    return x


def to_py(x):
    if isinstance(x, PyNone):
        return None
    if isinstance(x, tuple):
        return tuple(to_py(y) for y in x)
    if isinstance(x, PyArr):
        if x.src is not None and not x.buf.top and not x.buf.layers:
            return x.src
        sort = SORT[x.typ]
        st = []
        w = 1
        for d in reversed(x.shape):
            st.append(w)
            w = w * d if isinstance(d, int) and isinstance(w, int) else tm.mul(L(d), L(w))
        st = st[::-1]
        if any(not isinstance(s, int) for s in st):
            raise Unsupported('symbolic inner dimension of a result')
        snap, buf = x.buf.snapshot(), Buf(x.buf.name, x.buf.base, x.buf.sort)
        buf.restore(snap)

        def el(idx):
            off = 0
            for i, s in zip(idx, st):
                i = _int(i)
                off = off + i * s if isinstance(off, int) and isinstance(i, int) else tm.add(L(off), tm.mul(L(i), num(s, 'I')))
            return _as(buf.get(_int(off)), sort)
        return snp.ndarray.symb(tuple(x.shape), el, DT[x.typ])
    return x


# ------------------------------------------------------------------ control flow
class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Goto(Exception):
    def __init__(self, label):
        self.label = label


class CError(Exception):
    pass


API = {2: 'PyArray_Type', 45: 'PyArray_DescrFromType', 183: 'PyArray_Zeros', 184: 'PyArray_Empty'}
EXC = {'PyExc_ValueError': ValueError, 'PyExc_RuntimeError': RuntimeError, 'PyExc_TypeError': TypeError,
       'PyExc_IndexError': IndexError, 'PyExc_MemoryError': MemoryError}


def _truth(v):
    v = _int(v)
    if isinstance(v, (int, float)):
        return bool(v)
    if v is None:
        return False
    if isinstance(v, T):
        b = tm.tobool(v) if v.sort == 'B' else not_(tm.eq(v, num(0, v.sort)))
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        return explore.branch(b)
    return True


def _cond(v):
    """condition as a term"""
    v = _int(v)
    if isinstance(v, (int, float)):
        return TRUE if v else FALSE
    if isinstance(v, T):
        return tm.tobool(v) if v.sort == 'B' else not_(tm.eq(v, num(0, v.sort)))
    return TRUE if v is not None else FALSE


def _arith(v):
    v = _int(v)
    if isinstance(v, T) and v.sort == 'B':
        return ite(v, num(1, 'I'), num(0, 'I'))
    return v


def nanlift(f, *a):
    """arithmetic on values that are NaN in one branch is NaN there"""
    for k, x in enumerate(a):
        if isinstance(x, T) and x.op == 'ite' and (x.args[1] is NAN or x.args[2] is NAN):
            c, p, q = x.args
            p = NAN if p is NAN else nanlift(f, *a[:k], p, *a[k + 1:])
            q = NAN if q is NAN else nanlift(f, *a[:k], q, *a[k + 1:])
            return ite(c, p, q)
        if x is NAN:
            return NAN
    return f(*a)


_MATH = {'sqrt': tm.sqrt, 'sin': tm.sin, 'cos': tm.cos, 'tan': tm.tan, 'asin': tm.asin, 'acos': tm.acos, 'atan': tm.atan,
         'exp': tm.exp, 'log': tm.log, 'fabs': tm.absv, 'floor': tm.floor, 'ceil': tm.ceil}
_MATH2 = {'atan2': tm.atan2, 'fmin': tm.minv, 'fmax': tm.maxv, 'pow': tm.power}


def _R(x):
    x = _arith(x)
    return tm.toreal(L(x))


class Log:
    def __init__(self):
        self.writes = []         # (buf, ('pt', off, v) | ('rng', c, d, lo, hi, fn))
        self.reads = []          # (buf, off) read from before the iteration
        self.mine = set()        # buffers created in the iteration
        self.cells = {}          # cells stored before they were created here


class Module:
    def __init__(self, src):
        self.ast = load(src)
        self.file = src
        self.used = set()
        self.logs = []
        self.globals = {}
        self.error = None

        self.name = src.split('/hexrd/')[-1].rsplit('/', 1)[0]

    def where(self, q):
        d = os.path.dirname(self.file)
        for f in _sources(self.file):
            with open(f) as g:
                for k, ln in enumerate(g, 1):
                    if q + '(' in ln and not ln.startswith((' ', '\t', '/', '*', '#')) and ';' not in ln:
                        return f'{f[f.rindex("hexrd/core"):]}:{k}'
        return d

    # ------------------------------------------------------------ python side
    def method(self, name):
        fn = self.ast['methods'].get(name)
        if fn is None:
            raise AttributeError(name)

        def f(*args):
            return self.call_py(fn, args)
        f.__name__ = name
        return f

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self.method(name)

    def call_py(self, fn, args):
        saved, self.logs = self.logs, []
        self.error = None
        try:
            args = tuple(from_py(snp.asarray(a) if isinstance(a, (np.ndarray, list)) else a) for a in args)
            r = self.call(fn, [None, args])
        finally:
            self.logs = saved
        if r is None:
            raise self.error or SystemError('NULL without an exception')
        return to_py(r)

    # ------------------------------------------------------------ functions
    def call(self, name, args):
        f = self.ast['functions'].get(name)
        if f is None:
            return self.builtin(name, args)
        self.used.add(name)
        env = {}
        ps = [c for c in f['inner'] if c['kind'] == 'ParmVarDecl']
        for p, a in zip(ps, args):
            env[p['id']] = Cell(a, p['type'])
        body = next(c for c in f['inner'] if c['kind'] == 'CompoundStmt')
        try:
            self.stmt(body, env)
        except _Return as r:
            return r.v
        return None

    # ------------------------------------------------------------ memory access
    def new(self, buf):
        if self.logs:
            self.logs[-1].mine.add(id(buf))
            self.logs[-1].cells[id(buf)] = buf
        return buf

    def read(self, buf, off):
        if isinstance(buf, Cell):
            return buf.load()
        off = _int(off)
        return self._read(buf, off, len(self.logs) - 1)

    def _read(self, buf, off, lv):
        if lv < 0:
            return buf.get(off)
        lg = self.logs[lv]
        return self._scan(buf, off, lv, len(lg.writes) - 1)

    def _scan(self, buf, off, lv, k):
        lg = self.logs[lv]
        while k >= 0:
            b, w = lg.writes[k]
            k -= 1
            if b is not buf:
                continue
            if w[0] == 'pt':
                d = _int(tm.sub(L(off), L(w[1]))) if isinstance(off, T) or isinstance(w[1], T) else off - w[1]
                if isinstance(d, int):
                    if d == 0:
                        return w[2]
                    continue
                c = _meet(off, w[1])
                if c is TRUE:
                    return w[2]
                if c is not FALSE:
                    return ite(c, _as(w[2], buf.sort), _as(self._scan(buf, off, lv, k), buf.sort))
                continue
            _, c, dd, lo, hi, fn = w
            j = match(off, c, dd)
            if j is None:
                continue
            ins = and_(tm.le(L(lo), L(j)), tm.lt(L(j), L(hi)))
            if ins is FALSE:
                continue
            if ins is not TRUE and _implied(ins):
                ins = TRUE
            if ins is TRUE:
                return fn(j)
            return ite(ins, _as(fn(j), buf.sort), _as(self._scan(buf, off, lv, k), buf.sort))
        if id(buf) not in lg.mine:
            lg.reads.append((buf, off))
        return self._read(buf, off, lv - 1)

    def write(self, buf, off, v):
        if isinstance(buf, Cell):
            buf.store(v)
            return
        if buf.name == 'arg':
            raise Unsupported('the C code writes to its argument')
        off = _int(off)
        if self.logs:
            self.logs[-1].writes.append((buf, ('pt', off, v)))
        else:
            buf.put(off, v)

    # ------------------------------------------------------------ lvalues
    def addr(self, n, env):
        """-> (container, offset) with container Cell or Buf"""
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.addr(n['inner'][0], env)
        if k == 'DeclRefExpr':
            return self.var(n, env), 0
        if k == 'ArraySubscriptExpr':
            p, i = (self.expr(c, env) for c in n['inner'])
            if isinstance(p, Func) and p.name == 'PyArray_API':
                return Cell(Func(API.get(i, f'PyArray_API[{i}]'))), 0
            if not isinstance(p, Ptr):
                p, i = i, p
            if not isinstance(p, Ptr):
                raise Unsupported(f'subscript of {p!r} at line {n.get("line")}')
            q = p.add(_arith(i))
            return q.buf, q.off
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.expr(n['inner'][0], env)
            if isinstance(p, Ref):
                return p.cell, 0
            if isinstance(p, Ptr):
                return p.buf, p.off
            if isinstance(p, Func):
                return Cell(p), 0
            raise Unsupported('dereference')
        if k == 'MemberExpr':
            b = n['inner'][0]
            if n.get('isArrow'):
                p = self.expr(b, env)
                s = p.cell if isinstance(p, Ref) else p
            else:
                s, _ = self.addr(b, env)
            s = s.v if isinstance(s, Cell) else s
            if not isinstance(s, Struct):
                raise Unsupported('member of ' + repr(s))
            return s.f[n['name']], 0
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            return self.addr(n['inner'][0], env)
        raise Unsupported('lvalue ' + k)

    def var(self, n, env):
        i, name, kind = n['ref']
        if i in env:
            return env[i]
        if name in self.ast['variables'] or name.startswith('PyExc_'):
            c = self.globals.get(name)
            if c is None:
                d = self.ast['variables'].get(name)
                c = Cell(Func(name)) if d is None else self.declare(d, {}, glob=True)
                self.globals[name] = c
            return c
        if kind == 'FunctionDecl':
            return Cell(Func(name))
        if kind == 'EnumConstantDecl':
            return Cell(self.ast['enums'][name])
        if name == '_Py_NoneStruct':
            return Cell(NONE)
        return Cell(Func(name))

    # ------------------------------------------------------------ declarations
    def zero(self, ty):
        return num(0, 'R') if 'double' in ty or 'float' in ty else None if ty.endswith('*') else 0

    def make(self, ty, name='local'):
        """uninitialised storage of a type"""
        ty = ty.replace('const ', '').replace('volatile ', '').strip()
        if ty.endswith(']'):
            el = ty[:ty.index('[')].strip()
            sort = 'R' if el in ('double', 'float') else 'I'
            _COUNT[0] += 1
            u = f'uninit!{_COUNT[0]}'
            return Buf(name, lambda o: app(u, L(o), sort=sort), sort)
        rec = ty.replace('struct ', '')
        if rec in self.ast['records'] and not ty.endswith('*'):
            return Struct({f: self.place(t, f) for f, t in self.ast['records'][rec]})
        return UNINIT

    def place(self, ty, name='local'):
        v = self.make(ty, name)
        return self.new(v) if isinstance(v, Buf) else Cell(v, ty)

    def declare(self, d, env, glob=False):
        ty = d['type']
        c = self.place(ty, d['name'])
        init = next((x for x in d.get('inner', ()) if x and 'Attr' not in x['kind']), None)
        if init is not None:
            self.init(c, ty, init, env)
        env[d['id']] = c
        if self.logs and isinstance(c, Cell):
            self.logs[-1].cells[id(c)] = c
        return c

    def init(self, c, ty, n, env):
        if n['kind'] == 'InitListExpr':
            items = [x for x in (n.get('array_filler', [None])[1:] if 'array_filler' in n else n.get('inner', ()))]
            if isinstance(c, Buf):
                size = int(ty[ty.index('[') + 1:ty.index(']')])
                el = ty[:ty.index('[')].strip()
                for k in range(size):
                    v = self.expr(items[k], env) if k < len(items) and items[k]['kind'] != 'ImplicitValueInitExpr' else self.zero(el)
                    self.write(c, k, v)
                return
            s = c.v
            if not isinstance(s, Struct):
                raise Unsupported('initialiser of ' + ty)
            rec = self.ast['records'][ty.replace('struct ', '')]
            for k, (f, t) in enumerate(rec):
                if k < len(items) and items[k]['kind'] != 'ImplicitValueInitExpr':
                    self.init(s.f[f], t, items[k], env)
                elif isinstance(s.f[f], Buf):
                    self.init(s.f[f], t, {'kind': 'InitListExpr'}, env)
                else:
                    s.f[f].store(self.zero(t))
            return
        v = self.expr(n, env)
        if isinstance(v, Struct):
            raise Unsupported('structure copy')
        c.store(v)

    # ------------------------------------------------------------ expressions
    def expr(self, n, env):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('C expression ' + k)
        return m(n, env)

    def e_ParenExpr(self, n, env):
        return self.expr(n['inner'][0], env)

    e_ConstantExpr = e_ParenExpr

    def e_IntegerLiteral(self, n, env):
        return int(n['value'])

    def e_CharacterLiteral(self, n, env):
        return int(n['value'])

    def e_FloatingLiteral(self, n, env):
        return L(float(n['value']))

    def e_StringLiteral(self, n, env):
        return json.loads(n['value'])

    def e_PredefinedExpr(self, n, env):
        return ''

    def e_ImplicitValueInitExpr(self, n, env):
        return self.zero(n['type'])

    def e_UnaryExprOrTypeTraitExpr(self, n, env):
        return None      # only used for nothing (assert); anything else fails

    def e_StmtExpr(self, n, env):
        self.stmt(n['inner'][0], env)

    def e_DeclRefExpr(self, n, env):
        c = self.var(n, env)
        if isinstance(c, Buf):
            return Ptr(c)
        return c.load() if isinstance(c, Cell) else c

    def load(self, n, env):
        b, off = self.addr(n, env)
        if isinstance(b, Buf):
            return self.read(b, off)
        return b.load()

    e_ArraySubscriptExpr = e_MemberExpr = load

    def e_ImplicitCastExpr(self, n, env):
        ck, x = n['castKind'], n['inner'][0]
        if ck == 'LValueToRValue':
            return self.load(x, env)
        if ck == 'ArrayToPointerDecay':
            if x['kind'] in ('StringLiteral', 'PredefinedExpr', 'ParenExpr') and _find(x, 'DeclRefExpr') is None:
                return self.expr(x, env)
            b, off = self.addr(x, env)
            if not isinstance(b, Buf):
                raise Unsupported('decay of ' + x['kind'])
            return Ptr(b, off)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.fref(x, env)
        v = self.expr(x, env)
        if ck == 'NullToPointer':
            return None
        if ck in ('NoOp', 'BitCast', 'ToVoid', 'PointerToIntegral', 'IntegralToPointer'):
            return v
        if ck == 'IntegralCast':
            return _arith(v) if n['type'] not in ('bool', '_Bool') else _cond(v)
        if ck == 'IntegralToFloating':
            return _R(v)
        if ck == 'FloatingToIntegral':
            return _int(tm.trunc(_R(v)))
        if ck == 'FloatingCast':
            if 'float' in n['type'] and v is not NAN:
                v = L(v)
                if v.op == 'num' and float(np.float32(float(v.args[0]))) == float(v.args[0]):
                    return v
                return app('float32', v)
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return _cond(v)
        raise Unsupported('cast ' + ck)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def fref(self, n, env):
        while n['kind'] in ('ParenExpr', 'CStyleCastExpr', 'ImplicitCastExpr') or (n['kind'] == 'UnaryOperator' and n['opcode'] in ('*', '&')):
            if n['kind'] == 'ImplicitCastExpr' and n['castKind'] == 'LValueToRValue' and n['inner'][0]['kind'] == 'DeclRefExpr':
                return self.load(n['inner'][0], env)
            n = n['inner'][0]
        if n['kind'] == 'ArraySubscriptExpr':
            r, i = _ref(n, 'PyArray_API'), _find(n, 'IntegerLiteral')
            if r and i is not None:
                return Func(API.get(int(i['value']), f'PyArray_API[{i["value"]}]'))
        if n['kind'] == 'DeclRefExpr':
            c = self.var(n, env)
            v = c.load() if isinstance(c, Cell) else c
            if isinstance(v, Func):
                return v
        raise Unsupported('call of a computed function')

    def e_CallExpr(self, n, env):
        f = self.expr(n['inner'][0], env)
        if not isinstance(f, Func):
            raise Unsupported('call')
        if f.name in ('Py_XDECREF', 'Py_DECREF', 'Py_INCREF', 'Py_XINCREF', '_Py_XDECREF', '_Py_DECREF', '_Py_INCREF'):
            return None
        if f.name == 'PyArray_DescrFromType':
            return self.expr(n['inner'][1], env)
        args = [self.expr(a, env) for a in n['inner'][1:]]
        return self.call(f.name, args)

    def e_ConditionalOperator(self, n, env):
        c = _cond(self.expr(n['inner'][0], env))
        if c is TRUE:
            return self.expr(n['inner'][1], env)
        if c is FALSE:
            return self.expr(n['inner'][2], env)
        if _find(n['inner'][1], 'CallExpr') is None and _find(n['inner'][2], 'CallExpr') is None or True:
            a, b = self.expr(n['inner'][1], env), self.expr(n['inner'][2], env)
            if all(isinstance(x, (T, int, float)) for x in (a, b)):
                a, b = L(a), L(b)
                if 'R' in (a.sort, b.sort):
                    a, b = tm.toreal(a), tm.toreal(b)
                return ite(c, a, b)
        return self.expr(n['inner'][1 if explore.branch(c) else 2], env)

    def e_UnaryOperator(self, n, env):
        op, x = n['opcode'], n['inner'][0]
        if op == '&':
            if x['kind'] == 'DeclRefExpr' and x['ref'][2] == 'FunctionDecl':
                return Func(x['ref'][1])
            b, off = self.addr(x, env)
            if isinstance(b, Buf):
                return Ptr(b, off)
            if isinstance(b, Cell) and b.v is NONE:
                return NONE
            if isinstance(b, Cell) and isinstance(b.v, Func):
                return b.v
            if isinstance(b, Cell) and not isinstance(b.v, Struct):
                return Ptr(b, 0)
            return Ref(b)
        if op == '*':
            b, off = self.addr(n, env)
            return b.v if isinstance(b, Cell) and not isinstance(b.v, (T, int)) else self.read(b, off)
        if op in ('++', '--'):
            b, off = self.addr(x, env)
            old = self.read(b, off)
            d = 1 if op == '++' else -1
            new = old.add(d) if isinstance(old, Ptr) else _int(L(old) + d)
            self.write(b, off, new)
            return old if n.get('isPostfix') else new
        v = self.expr(x, env)
        if op == '-':
            return nanlift(lambda a: _int(-L(a)), _arith(v))
        if op == '+':
            return v
        if op == '!':
            c = not_(_cond(v))
            return 1 if c is TRUE else 0 if c is FALSE else c
        if op == '~' and isinstance(v, int):
            return ~v
        if op == '__extension__':
            return v
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, n, env):
        op = n['opcode']
        if op == '=':
            v = self.expr(n['inner'][1], env)
            b, off = self.addr(n['inner'][0], env)
            if isinstance(v, Struct):
                raise Unsupported('structure assignment')
            self.write(b, off, v)
            return v
        if op == ',':
            self.expr(n['inner'][0], env)
            return self.expr(n['inner'][1], env)
        if op in ('&&', '||'):
            a = _cond(self.expr(n['inner'][0], env))
            if a is (FALSE if op == '&&' else TRUE):
                return 0 if op == '&&' else 1
            if a is (TRUE if op == '&&' else FALSE):
                return self._b(_cond(self.expr(n['inner'][1], env)))
            if _find(n['inner'][1], 'CallExpr') is None or _pure(n['inner'][1]):
                b = _cond(self.expr(n['inner'][1], env))
                return self._b(and_(a, b) if op == '&&' else or_(a, b))
            if explore.branch(a):
                return self._b(_cond(self.expr(n['inner'][1], env))) if op == '&&' else 1
            return 0 if op == '&&' else self._b(_cond(self.expr(n['inner'][1], env)))
        a, b = self.expr(n['inner'][0], env), self.expr(n['inner'][1], env)
        return self.binop(op, a, b, n.get('type', ''))

    def _b(self, c):
        return 1 if c is TRUE else 0 if c is FALSE else c

    def binop(self, op, a, b, ty):
        if isinstance(a, (Ptr, Ref, PyArr, PyNone, Struct, Func, str)) or a is None or isinstance(b, (Ptr, Ref, PyArr, PyNone, Struct, Func, str)) or b is None:
            if op in ('==', '!='):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    raise Unsupported('comparison of pointers')
                same = a is b or (isinstance(a, Func) and isinstance(b, Func) and a.name == b.name)
                return int(same == (op == '=='))
            if op == '+' and isinstance(a, Ptr):
                return a.add(_arith(b))
            if op == '+' and isinstance(b, Ptr):
                return b.add(_arith(a))
            if op == '-' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return a.add(_int(-L(_arith(b))))
            if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf:
                return _int(L(a.off) - L(b.off))
            raise Unsupported('pointer ' + op)
        a, b = _arith(a), _arith(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            x, y = L(a), L(b)
            if NAN in (x, y):
                return int(op == '!=')
            r = {'==': lambda: tm.eq(x, y), '!=': lambda: not_(tm.eq(x, y)), '<': lambda: tm.lt(x, y), '>': lambda: tm.lt(y, x),
                 '<=': lambda: tm.le(x, y), '>=': lambda: tm.le(y, x)}[op]()
            return self._b(r)
        if isinstance(a, int) and isinstance(b, int):
            if op in ('/', '%'):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == '/' else a - b * q
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
                    '<<': lambda: a << b, '>>': lambda: a >> b, '^': lambda: a ^ b}[op]()
        real = any(isinstance(x, T) and x.sort == 'R' or isinstance(x, float) for x in (a, b))
        if real:
            a, b = _R(a), _R(b)
            f = {'+': tm.add, '-': tm.sub, '*': tm.mul, '/': tm.div}.get(op)
            if f is None:
                raise Unsupported('real ' + op)
            return nanlift(f, a, b)
        a, b = L(a), L(b)
        if op in ('/', '%'):
            # truncation is the floor for non-negative operands
            if not (_implied(tm.le(num(0, 'I'), a)) and _implied(tm.lt(num(0, 'I'), b))):
                raise Unsupported('integer division of possibly negative operands')
            return _int(tm.floordiv(a, b) if op == '/' else tm.mod(a, b))
        f = {'+': tm.add, '-': tm.sub, '*': tm.mul}.get(op)
        if f is None:
            raise Unsupported('integer ' + op)
        return _int(f(a, b))

    def e_CompoundAssignOperator(self, n, env):
        op = n['opcode'][:-1]
        v = self.expr(n['inner'][1], env)
        b, off = self.addr(n['inner'][0], env)
        new = self.binop(op, self.read(b, off), v, n.get('type', ''))
        self.write(b, off, new)
        return new

    # ------------------------------------------------------------ statements
    def stmt(self, n, env):
        m = getattr(self, 's_' + n['kind'], None)
        if m is not None:
            return m(n, env)
        return self.expr(n, env)

    def s_CompoundStmt(self, n, env):
        items = n.get('inner', ())
        k = 0
        while k < len(items):
            try:
                self.stmt(items[k], env)
                k += 1
            except _Goto as g:
                k = next((j for j, x in enumerate(items) if x['kind'] == 'LabelStmt' and x.get('declId') == g.label), None)
                if k is None:
                    raise

    def s_LabelStmt(self, n, env):
        for c in n.get('inner', ()):
            self.stmt(c, env)

    def s_GotoStmt(self, n, env):
        if self.logs:
            raise Unsupported('goto in a loop')
        raise _Goto(n['targetLabelDeclId'])

    def s_NullStmt(self, n, env):
        pass

    def s_DeclStmt(self, n, env):
        for d in n['inner']:
            if d['kind'] == 'VarDecl':
                self.declare(d, env)

    def s_ReturnStmt(self, n, env):
        raise _Return(self.expr(n['inner'][0], env) if n.get('inner') else None)

    def s_BreakStmt(self, n, env):
        raise _Break

    def s_ContinueStmt(self, n, env):
        raise _Continue

    def s_IfStmt(self, n, env):
        c = n['inner']
        if _truth(self.expr(c[0], env)):
            self.stmt(c[1], env)
        elif len(c) > 2 and c[2] is not None:
            self.stmt(c[2], env)

    def s_SwitchStmt(self, n, env):
        v = _int(self.expr(n['inner'][0], env))
        if not isinstance(v, int):
            raise Unsupported('switch on a symbolic value')
        body, flat = n['inner'][1], []

        def walk(x):
            if x['kind'] == 'CaseStmt':
                e = x['inner'][0]
                flat.append(('case', int(e['value']) if 'value' in e else self.expr(e, env)))
                walk(x['inner'][-1])
            elif x['kind'] == 'DefaultStmt':
                flat.append(('default', None))
                walk(x['inner'][-1])
            else:
                flat.append(('stmt', x))
        for x in body.get('inner', ()):
            walk(x)
        at = next((k for k, (a, b) in enumerate(flat) if a == 'case' and b == v), None)
        if at is None:
            at = next((k for k, (a, b) in enumerate(flat) if a == 'default'), len(flat))
        try:
            for a, b in flat[at:]:
                if a == 'stmt':
                    self.stmt(b, env)
        except _Break:
            pass

    # ------------------------------------------------------------ loops
    def s_DoStmt(self, n, env):
        raise Unsupported('do loop')

    def s_WhileStmt(self, n, env):
        cond, body = n['inner'][-2], n['inner'][-1]
        if self.accelerate(cond, body, env):
            return
        self.concrete(cond, body, None, env, 400)

    def concrete(self, cond, body, inc, env, limit):
        """a loop whose condition is decided in every round"""
        for _ in range(limit):
            if cond is not None:
                c = self.expr(cond, env)
                if not _known(c):
                    raise Unsupported(f'loop with a symbolic bound at line {cond.get("line")}')
                if not _truth(c):
                    return
            try:
                self.stmt(body, env)
            except _Break:
                return
            except _Continue:
                pass
            if inc is not None:
                self.expr(inc, env)
        raise Unsupported('long loop')

    def accelerate(self, cond, body, env):
        """while (x < b) x += d;  with constant d > 0 (or > and d < 0)"""
        while cond['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            cond = cond['inner'][0]
        while body['kind'] == 'CompoundStmt' and len(body.get('inner', ())) == 1:
            body = body['inner'][0]
        if cond['kind'] != 'BinaryOperator' or cond['opcode'] not in ('<', '>', '<=', '>=') or body['kind'] != 'CompoundAssignOperator' or body['opcode'] not in ('+=', '-='):
            return False
        lv = body['inner'][0]
        if lv['kind'] != 'DeclRefExpr':
            return False
        sides = [any(x['ref'][0] == lv['ref'][0] for x in _refs(c)) for c in cond['inner']]
        if sum(sides) != 1 or any(x['ref'][0] == lv['ref'][0] for x in _refs(body['inner'][1])):
            return False
        v = sides.index(True)
        x = cond['inner'][v]
        while x['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            x = x['inner'][0]
        if x['kind'] != 'DeclRefExpr':
            return False
        step = L(_arith(self.expr(body['inner'][1], env)))
        if body['opcode'] == '-=':
            step = -step
        up = (cond['opcode'] in ('<', '<=')) == (v == 0)
        if not tm.lt(num(0), step) is (TRUE if up else FALSE) or tm.eq(step, num(0)) is TRUE:
            z = tm.evalf(step, {}) if not tm.symbols(step) else None
            if z is None or z == 0 or (z > 0) != up:
                return False
        cell = self.var(lv, env)
        bound = self.expr(cond['inner'][1 - v], env)
        x0 = cell.load()

        def holds(x):
            a, b = (x, bound) if v == 0 else (bound, x)
            return _cond(self.binop(cond['opcode'], a, b, ''))
        if not _truth(holds(x0)):
            return True
        # number of additions until the bound is passed, in closed form
        q = tm.div(tm.toreal(tm.sub(L(bound), L(x0))), tm.toreal(step))
        k = tm.ceil(q) if cond['opcode'] in ('<', '>') else tm.add(tm.floor(q), num(1, 'I'))
        cell.store(tm.add(L(x0), tm.mul(tm.toreal(k) if L(x0).sort == 'R' else k, step)))
        return True

    def s_ForStmt(self, n, env):
        init, _, cond, inc, body = n['inner']
        if init is not None:
            self.stmt(init, env)
        if cond is None or inc is None:
            return self.concrete(cond, body, inc, env, 400)
        g = self.loopinfo(cond, inc, env)
        if g is not None:
            var, lo, step, hi = g
            N = _int(tm.sub(L(hi), L(lo)))
            if not isinstance(N, int) or N > GENERIC * step:
                return self.generic(n, env, var, lo, step, hi)
        self.concrete(cond, body, inc, env, 4000)

    def loopinfo(self, cond, inc, env):
        """for (...; v + a < bound; v += step): (cell of v, lo, step, hi) with v < hi"""
        while cond['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            cond = cond['inner'][0]
        while inc['kind'] == 'ParenExpr':
            inc = inc['inner'][0]
        if cond['kind'] != 'BinaryOperator' or cond['opcode'] not in ('<', '<=', '!='):
            return None
        if inc['kind'] == 'UnaryOperator' and inc['opcode'] == '++':
            lv, step = inc['inner'][0], 1
        elif inc['kind'] == 'CompoundAssignOperator' and inc['opcode'] == '+=':
            lv, step = inc['inner'][0], _int(self.expr(inc['inner'][1], env))
        else:
            return None
        if lv['kind'] != 'DeclRefExpr' or not isinstance(step, int) or step < 1:
            return None
        cell = self.var(lv, env)
        if not isinstance(cell, Cell) or not isinstance(_int(cell.v), (int, T)):
            return None
        lo = _int(cell.load())
        if isinstance(lo, T) and lo.sort != 'I':
            return None
        probe = _fresh('probe')
        keep = cell.v
        try:
            cell.v = probe
            a, b = _arith(self.expr(cond['inner'][0], env)), _arith(self.expr(cond['inner'][1], env))
        finally:
            cell.v = keep
        if any(isinstance(x, T) and x.sort != 'I' or not isinstance(x, (T, int)) for x in (a, b)):
            return None
        a = tm.sub(L(a), probe)
        if any(x is probe for x in tm.subterms([a, L(b)])):
            return None
        hi = tm.sub(L(b), a)
        if cond['opcode'] == '<=':
            hi = tm.add(hi, num(1, 'I'))
        if cond['opcode'] == '!=' and step != 1:
            return None
        return cell, lo, step, _int(hi)

    def generic(self, n, env, var, lo, step, hi):
        e = explore.engine()
        body = n['inner'][4]
        if step == 1:
            Q = _int(tm.sub(L(hi), L(lo)))
            end = hi
        else:
            Q = _fresh('rounds')
            end = _int(tm.add(L(lo), tm.mul(num(step, 'I'), Q)))
            last = _int(tm.sub(L(end), num(step, 'I')))
            explore.assume(tm.le(num(0, 'I'), Q))
            explore.assume(or_(and_(tm.eq(Q, num(0, 'I')), tm.le(L(hi), L(lo))), and_(tm.le(num(1, 'I'), Q), tm.lt(L(last), L(hi)), tm.le(L(hi), L(end)))))
        none = tm.le(L(Q), num(0, 'I'))
        if none is TRUE or (not isinstance(Q, int) and not e.feasible(not_(none))):
            return                        # no iteration
        q = _fresh('k')
        cells = {id(c): c for c in env.values() if isinstance(c, Cell) and not isinstance(c.v, (Struct, Func))}
        snap = [(c, c.v, c.state) for c in cells.values()]
        nlog = [(lg, len(lg.writes), len(lg.reads)) for lg in self.logs]

        def restore():
            for c, v, s in snap:
                c.v, c.state = v, s
            for lg, a, b in nlog:
                del lg.writes[a:], lg.reads[b:]
        assigned = [c for c in self.assigned(n, env) if c is not var]
        deltas, first, strategy = {}, 0, {}
        for attempt in range(8):
            try:
                done = self.iterate(n, env, var, lo, step, q, Q, first, assigned, strategy)
                break
            except CarriedRead as cr:
                c = cr.cell
                if c not in assigned:
                    raise
                restore()
                if c in strategy:
                    raise Unsupported('value carried from one iteration to the next')
                v0 = c.v
                d = None
                if isinstance(v0, (Ptr, int)) or (isinstance(v0, T) and v0.sort == 'I'):
                    d = self.increment(n, env, var, lo, step, q, Q, assigned, strategy, c, restore)
                if d is not None:
                    strategy[c] = ('add', v0, d)
                    continue
                # execute the first iteration, then the value must stay
                if first:
                    raise Unsupported('value carried from one iteration to the next')
                first = 1
                if not isinstance(Q, int):
                    if explore.branch(none):
                        return
                var.store(lo)
                try:
                    self.stmt(body, env)
                except _Continue:
                    pass
                except _Break:
                    return
                for x in assigned:
                    strategy.setdefault(x, ('keep', x.v))
                snap = [(x, x.v, x.state) for x in cells.values()]
                nlog = [(lg, len(lg.writes), len(lg.reads)) for lg in self.logs]
        else:
            raise Unsupported('loop-carried values')
        self.commit(done, q, first, Q)
        for c in assigned:
            st = strategy.get(c)
            if st is None or st[0] == 'keep' and st[1] is UNINIT:
                c.v, c.state = UNINIT, None
            elif st[0] == 'add':
                c.store(self._plus(st[1], st[2], Q))
            elif c.state == 'kept':
                c.store(st[1])
            else:
                c.v, c.state = UNINIT, None
        var.store(end if step > 1 or _implied(tm.le(L(lo), L(end))) else _int(ite(tm.le(L(lo), L(end)), L(end), L(lo))))

    def _plus(self, v0, d, k):
        t = _int(tm.mul(L(d), L(k)))
        return v0.add(t) if isinstance(v0, Ptr) else _int(tm.add(L(v0), L(t)))

    def assigned(self, n, env):
        out = []
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict):
                continue
            if (x['kind'] == 'BinaryOperator' and x['opcode'] == '=') or x['kind'] == 'CompoundAssignOperator' or (
                    x['kind'] == 'UnaryOperator' and x['opcode'] in ('++', '--', '&')):
                y = x['inner'][0]
                while y['kind'] == 'ParenExpr':
                    y = y['inner'][0]
                if y['kind'] == 'DeclRefExpr':
                    c = env.get(y['ref'][0])
                    if isinstance(c, Cell) and not isinstance(c.v, (Struct, Func)) and c not in out:
                        if x.get('opcode') == '&' and c.v is not UNINIT:
                            continue
                        out.append(c)
                    elif c is None and self.globals.get(y['ref'][1]) is not None:
                        raise Unsupported('loop assigns a global')
            st += [c for c in x.get('inner', ()) if c]
        return out

    def increment(self, n, env, var, lo, step, q, Q, assigned, strategy, c, restore):
        ph = _fresh('carry')
        v0 = c.v
        start = Ptr(v0.buf, ph) if isinstance(v0, Ptr) else ph
        try:
            done = self.iterate(n, env, var, lo, step, q, Q, 0, assigned, {**strategy, c: ('probe', start)})
        except (CarriedRead, Unsupported):
            restore()
            return None
        restore()
        ds = set()
        for pc, lg, fin in done:
            v = fin[c]
            if isinstance(v0, Ptr):
                if not isinstance(v, Ptr) or v.buf is not v0.buf:
                    return None
                v = v.off
            d = _int(tm.sub(L(v), ph))
            if not isinstance(d, int):
                return None
            ds.add(d)
        return ds.pop() if len(ds) == 1 else None

    def iterate(self, n, env, var, lo, step, q, Q, first, assigned, strategy):
        """all paths of one generic iteration -> [(pc, log, final values)]"""
        e = explore.engine()
        body, inc = n['inner'][4], n['inner'][3]
        fr = explore.Frame()
        hyp = and_(tm.le(num(first, 'I'), q), tm.lt(q, L(Q)))
        v = _int(tm.add(L(lo), tm.mul(num(step, 'I'), q)))
        base = [(c, c.v, c.state) for c in env.values() if isinstance(c, Cell)]
        e.hyps.append(hyp)
        e.cache.clear()
        e.frames.append(fr)
        e.binders.append(q)
        done = []
        try:
            if not e.feasible(TRUE):
                return done
            while True:
                fr.start()
                for c, x, s in base:
                    c.v, c.state = x, s
                for c in assigned:
                    st = strategy.get(c)
                    if st is None:
                        c.state = 'poison'
                    elif st[0] == 'add':
                        c.v = self._plus(st[1], st[2], q)
                    elif st[0] == 'probe':
                        c.v = st[1]
                    else:
                        c.v = st[1]
                var.store(v)
                lg = Log()
                self.logs.append(lg)
                try:
                    self.stmt(body, env)
                except _Continue:
                    pass
                except _Break:
                    raise Unsupported('break out of a loop with a symbolic bound')
                except _Return:
                    raise Unsupported('return out of a loop with a symbolic bound')
                finally:
                    self.logs.pop()
                if _int(var.v) is not v and _int(var.v) != v:
                    raise Unsupported('loop variable changed in the body')
                # the other increments of the for statement
                fin = {c: c.v for c in assigned}
                for c in assigned:
                    st = strategy.get(c)
                    if st is None:
                        continue
                    if st[0] == 'add':
                        want = self._plus(st[1], st[2], tm.add(q, num(1, 'I')))
                        ok = (isinstance(want, Ptr) and isinstance(c.v, Ptr) and c.v.buf is want.buf and c.v.off == want.off) or (
                            not isinstance(want, Ptr) and (c.v is want or c.v == want))
                        if not ok:
                            raise Unsupported('increment of a carried value differs between paths')
                    elif st[0] == 'keep':
                        c.state = 'kept' if c.v is st[1] else c.state
                        if c.v is not st[1]:
                            # only a problem when a later iteration reads it
                            strategy.pop(c)
                            raise CarriedRetry()
                done.append((list(fr.pc), lg, fin))
                e.paths += 1
                if e.paths > e.max_paths:
                    raise explore.PathLimit('too many loop paths')
                if not fr.advance():
                    break
        except CarriedRetry:
            return self._retry(fr, e, n, env, var, lo, step, q, Q, first, assigned, strategy, base)
        finally:
            if fr in e.frames:
                e.frames.remove(fr)
                e.binders.pop()
                e.hyps.pop()
                e.cache.clear()
        return done

    def _retry(self, fr, e, n, env, var, lo, step, q, Q, first, assigned, strategy, base):
        e.frames.remove(fr)
        e.binders.pop()
        e.hyps.pop()
        e.cache.clear()
        for c, x, s in base:
            c.v, c.state = x, s
        return self.iterate(n, env, var, lo, step, q, Q, first, assigned, strategy)

    def commit(self, done, q, first, Q):
        """the writes of the generic iteration as writes of the whole loop"""
        bufs = []
        for pc, lg, fin in done:
            for b, w in lg.writes:
                if id(b) not in lg.mine and b not in bufs:
                    bufs.append(b)
        n = len(done)
        for b in bufs:
            groups = {}                # (kind, c, d-key) -> {path: entry}
            scratch = False
            for p, (pc, lg, fin) in enumerate(done):
                for bb, w in lg.writes:
                    if bb is not b:
                        continue
                    if w[0] == 'pt':
                        co, k = lin(w[1])
                        c = co.pop(q, 0)
                        if c == 0:
                            scratch = True
                            groups.setdefault(('s', w[1]), {})
                            continue
                        groups.setdefault(('pt', c, unlin(co, k)), {})[p] = w
                    else:
                        _, c, d, l0, h0, fn = w
                        co, k = lin(d)
                        cq = co.pop(q, 0)
                        if cq == 0:
                            scratch = True
                            groups.setdefault(('s', d), {})
                            continue
                        if not isinstance(l0, int) or not isinstance(h0, int) or cq != c * (h0 - l0):
                            raise Unsupported('blocks of a loop do not tile')
                        groups.setdefault(('rng', c, unlin(co, k), l0, h0), {})[p] = w
            cs = {g[1] * (g[4] - g[3]) if g[0] == 'rng' else g[1] for g in groups if g[0] != 's'}
            if scratch and cs:
                raise Unsupported('loop writes both fixed and moving locations of ' + b.name)
            # reads of what other iterations write
            for pc, lg, fin in done:
                for rb, off in lg.reads:
                    if rb is not b:
                        continue
                    co, k = lin(off)
                    cq = co.pop(q, 0)
                    if scratch:
                        if any(g[1] == off or not isinstance(g[1], int) or not isinstance(off, int) for g in groups if g[0] == 's'):
                            raise Unsupported('memory carried from one iteration to the next')
                        continue
                    if cs and cq not in cs:
                        raise Unsupported('loop reads memory other iterations write')
                    base = unlin(co, k)
                    for g in groups:
                        if g[0] != 'pt':
                            raise Unsupported('loop reads memory it writes in blocks')
                        d = _int(tm.sub(L(base), L(g[2]))) if isinstance(base, T) or isinstance(g[2], T) else base - g[2]
                        if not isinstance(d, int) or (d != 0 and d % g[1] == 0):
                            raise Unsupported('loop reads memory other iterations write')
            if scratch:
                _COUNT[0] += 1
                for g in groups:
                    u = app(f'scratch!{_COUNT[0]}', L(g[1]), sort=b.sort)
                    self._emit(b, ('pt', g[1], u) if isinstance(g[1], int) else None, g)
                continue
            # later writes of a path win over earlier ones: offsets of different groups must differ
            keys = list(groups)
            for i, g in enumerate(keys):
                for h in keys[:i]:
                    if g[1] != h[1]:
                        raise Unsupported('loop writes with several strides')
                    d = _int(tm.sub(L(g[2]), L(h[2]))) if isinstance(g[2], T) or isinstance(h[2], T) else g[2] - h[2]
                    if not isinstance(d, int) or d % g[1] == 0:
                        raise Unsupported('loop writes overlap')
            for g, ent in groups.items():
                c, d = g[1], g[2]
                if g[0] == 'pt':
                    prev = self._freeze(b) if len(ent) < n else None

                    def fn(j, ent=ent, c=c, d=d, b=b, prev=prev):
                        r = None
                        ps = list(range(n))
                        old = None
                        for p in reversed(ps):
                            if p in ent:
                                v = tm.subst(_as(ent[p][2], b.sort), {q: L(j)})
                            else:
                                if old is None:
                                    old = _as(prev.get(_int(tm.add(tm.mul(num(c, 'I'), L(j)), L(d)))), b.sort)
                                v = old
                            if r is None:
                                r = v
                            else:
                                r = ite(tm.subst(and_(*done[p][0]), {q: L(j)}), v, r)
                        return r
                    # earlier contents for paths that do not write
                    self._emit(b, ('rng', c, d, first, Q, fn), g)
                else:
                    if len(ent) < n or n > 1:
                        raise Unsupported('blocks written on some paths only')
                    _, _, d0, l0, h0 = g
                    s = h0 - l0
                    inner = ent[0][5]

                    def fn(j, inner=inner, s=s, l0=l0):
                        # j counts elements: block q = floor((j - l0) / s)
                        jj = _fresh('e')
                        t = inner(jj)
                        r = tm.subst(L(t), {jj: tm.sub(L(j), tm.mul(num(s, 'I'), q))})
                        if any(x is q for x in tm.subterms([r])):
                            r = tm.subst(r, {q: tm.floordiv(tm.sub(L(j), num(l0, 'I')), num(s, 'I'))})
                        return r
                    lo = l0 + s * first
                    hi = _int(tm.add(tm.mul(num(s, 'I'), L(Q)), num(l0, 'I')))
                    self._emit(b, ('rng', c, d0, lo, hi, fn), g)

    def _emit(self, b, w, g):
        if w is None:
            raise Unsupported('scratch memory at a symbolic offset')
        if self.logs:
            if w[0] == 'pt':
                self.logs[-1].writes.append((b, w))
            else:
                self.logs[-1].writes.append((b, w))
        elif w[0] == 'pt':
            b.put(w[1], w[2])
        else:
            b.push(w)

    def _freeze(self, b):
        if self.logs:
            raise Unsupported('partial writes in nested loops')
        s = b.snapshot()
        old = Buf(b.name, b.base, b.sort)
        old.restore(s)
        return old

    # ------------------------------------------------------------ C library, Python and numpy API
    def builtin(self, name, a):
        if name in _MATH:
            return nanlift(lambda x: _MATH[name](x), _R(a[0]))
        if name in _MATH2:
            return nanlift(lambda x, y: _MATH2[name](x, y), _R(a[0]), _R(a[1]))
        if name in ('__builtin_nanf', '__builtin_nan', 'nan'):
            return NAN
        if name == '__builtin_expect':
            return a[0]
        m = getattr(self, 'c_' + name, None)
        if m is None:
            raise Unsupported('call of ' + name)
        return m(*a)

    def c_printf(self, *a):
        return 0

    def c___assert_fail(self, *a):
        raise AssertionError('C assertion failed')

    def c_PyArg_ParseTuple(self, args, fmt, *out):
        out = list(out)
        k = 0
        opt = False
        i = 0
        nreq = None
        while i < len(fmt):
            ch = fmt[i]
            if ch in ':;':
                break
            if ch == '|':
                opt, nreq = True, k
                i += 1
                continue
            code = 'O&' if fmt[i:i + 2] == 'O&' else ch
            i += len(code)
            w = 2 if code == 'O&' else 1
            dst = out[:w]
            del out[:w]
            if k >= len(args):
                if opt:
                    k += 1
                    continue
                self.error = TypeError('function takes more arguments')
                return 0
            v = args[k]
            k += 1
            if code == 'O&':
                if not self.call(dst[0].name, [v, dst[1]]):
                    return 0
                continue
            p = dst[0]
            if code == 'd':
                if isinstance(v, PyArr):
                    if v.shape not in ((), (1,)):
                        self.error = TypeError('only length-1 arrays can be converted')
                        return 0
                    v = v.buf.get(0)
                if not isinstance(v, (T, int, float, np.floating, np.integer)):
                    self.error = TypeError('must be real number')
                    return 0
                self.write(p.buf, p.off, _R(v))
            elif code == 'p':
                self.write(p.buf, p.off, 1 if _truth(v) else 0)
            elif code in ('i', 'n', 'l'):
                self.write(p.buf, p.off, _int(v))
            elif code == 'O':
                self.write(p.buf, p.off, v)
            else:
                raise Unsupported('argument format ' + code)
        if k < len(args):
            self.error = TypeError('function takes fewer arguments')
            return 0
        return 1

    def c_PyErr_Format(self, exc, fmt, *a):
        self.error = EXC.get(getattr(exc, 'name', ''), RuntimeError)(fmt)
        return None

    def c_PyErr_SetString(self, exc, msg):
        return self.c_PyErr_Format(exc, msg)

    def c_PyErr_NoMemory(self):
        self.error = MemoryError()
        return None

    def c_Py_BuildValue(self, fmt, *a):
        if set(fmt) <= set('ON'):
            return tuple(a) if len(a) > 1 else a[0]
        raise Unsupported('Py_BuildValue ' + fmt)

    def c_PyFloat_FromDouble(self, v):
        return L(v)

    def c_PyObject_TypeCheck(self, o, t):
        return int(isinstance(o, PyArr))

    def c_PyArray_NDIM(self, a):
        return len(a.shape)

    def c_PyArray_DIM(self, a, k):
        return a.dims.get(k)

    def c_PyArray_DIMS(self, a):
        return Ptr(a.dims)

    c_PyArray_SHAPE = c_PyArray_DIMS

    def c_PyArray_DATA(self, a):
        return Ptr(a.buf)

    def c_PyArray_TYPE(self, a):
        return -1 if a.typ is None else a.typ

    def c_PyArray_CHKFLAGS(self, a, f):
        return 1

    def c_PyArray_ISNOTSWAPPED(self, a):
        return 1

    def c_PyArray_DESCR(self, a):
        return Ref(Struct({'byteorder': Cell(ord('='))}))

    def c_PyDataType_BYTEORDER(self, d):
        return ord('=')

    c_PyArray_ISBEHAVED_RO = c_PyArray_ISNOTSWAPPED

    def c_PyArray_Empty(self, nd, dims, typ, order):
        shape = tuple(self.read(dims.buf, dims.off + k) for k in range(nd))
        _COUNT[0] += 1
        u = f'uninit!{_COUNT[0]}'
        sort = SORT[typ]
        return PyArr(shape, typ, Buf('result', lambda o: app(u, L(o), sort=sort), sort))

    def c_PyArray_Zeros(self, nd, dims, typ, order):
        shape = tuple(self.read(dims.buf, dims.off + k) for k in range(nd))
        sort = SORT[typ]
        return PyArr(shape, typ, Buf('result', lambda o: FALSE if sort == 'B' else num(0, sort), sort))


class CarriedRetry(Exception):
    pass


def _known(c):
    c = _cond(c)
    return c is TRUE or c is FALSE or (explore.active() and (not explore.engine().feasible(c) or not explore.engine().feasible(not_(c))))


def _refs(n):
    out = []
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        if x['kind'] == 'DeclRefExpr':
            out.append(x)
        st += [c for c in x.get('inner', ()) if c]
    return out


def _ref(n, name):
    return any(x['ref'][1] == name for x in _refs(n))


def _pure(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        if x['kind'] == 'CallExpr':
            f = _refs(x['inner'][0])
            if not f or f[0]['ref'][1] not in _MATH:
                return False
        if x['kind'] in ('CompoundAssignOperator',) or (x['kind'] == 'BinaryOperator' and x['opcode'] == '=') or (
                x['kind'] == 'UnaryOperator' and x['opcode'] in ('++', '--')):
            return False
        st += [c for c in x.get('inner', ()) if c]
    return True
