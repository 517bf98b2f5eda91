"""Hash-consed term DAG used as the value domain of the verification-condition
generator.  Sorts: 'R' (mathematical real), 'I' (mathematical integer), 'B'.

Arithmetic on terms is mathematical: no rounding, no overflow.  The special
term NAN stands for the IEEE not-a-number literal the code writes explicitly.
"""
from fractions import Fraction
import sys
import math

import numpy as _np


class Unsupported(BaseException):
    """The construct is outside the verifier's reach (never a verdict)."""


_TABLE = {}


_FMT = {}


def _formatting():
    """called for the text of a message: 'literal %d' % value"""
    import ast
    import linecache
    fr = sys._getframe(2)
    key = (fr.f_code, fr.f_lasti)
    r = _FMT.get(key)
    if r is None:
        r = False
        try:
            a, b, c, d = list(fr.f_code.co_positions())[fr.f_lasti // 2]
            lines = [linecache.getline(fr.f_code.co_filename, i).encode() for i in range(a, b + 1)]
            lines[-1] = lines[-1][:d]
            lines[0] = lines[0][c:]
            e = ast.parse('(' + b''.join(lines).decode() + ')', mode='eval').body
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
                r = isinstance(e.left, ast.Constant) and isinstance(e.left.value, str)
                if isinstance(e.left, ast.Name):
                    return isinstance(fr.f_locals.get(e.left.id), str)
        except Exception:
            r = False
        _FMT[key] = r
    return r


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_nan', '__weakref__')
    __array_priority__ = 1e9
    __array_ufunc__ = None

    # terms are values: a copy is the term itself
    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # hashing by identity (terms are hash-consed)
    def __hash__(self):
        return self.id

    # ------------------------------------------------------------ arithmetic
    def __add__(a, b):
        c = lift(b)
        return _nd('add', a, b) if c is None else add(a, c)

    def __radd__(a, b):
        c = lift(b)
        return _nd('add', a, b, True) if c is None else add(c, a)

    def __sub__(a, b):
        c = lift(b)
        return _nd('subtract', a, b) if c is None else sub(a, c)

    def __rsub__(a, b):
        c = lift(b)
        return _nd('subtract', a, b, True) if c is None else sub(c, a)

    def __mul__(a, b):
        c = lift(b)
        return _nd('multiply', a, b) if c is None else mul(a, c)

    def __rmul__(a, b):
        c = lift(b)
        return _nd('multiply', a, b, True) if c is None else mul(c, a)

    def __truediv__(a, b):
        c = lift(b)
        return _nd('divide', a, b) if c is None else div(a, c)

    def __rtruediv__(a, b):
        c = lift(b)
        return _nd('divide', a, b, True) if c is None else div(c, a)

    def __floordiv__(a, b):
        c = lift(b)
        return _nd('floor_divide', a, b) if c is None else floordiv(a, c)

    def __rfloordiv__(a, b):
        c = lift(b)
        return _nd('floor_divide', a, b, True) if c is None else floordiv(c, a)

    def __mod__(a, b):
        c = lift(b)
        return _nd('mod', a, b) if c is None else mod(a, c)

    def __rmod__(a, b):
        c = lift(b)
        return _nd('mod', a, b, True) if c is None else mod(c, a)

    def __pow__(a, b):
        c = lift(b)
        return _nd('power', a, b) if c is None else power(a, c)

    def __rpow__(a, b):
        c = lift(b)
        return _nd('power', a, b, True) if c is None else power(c, a)

    def __neg__(a):
        return mul(num(-1), a)

    def __pos__(a):
        return a

    def __abs__(a):
        return absv(a)

    # ------------------------------------------------------------ comparison
    def __eq__(a, b):
        c = lift(b)
        return _nd('equal', a, b) if c is None else eq(a, c)

    def __ne__(a, b):
        c = lift(b)
        return _nd('not_equal', a, b) if c is None else not_(eq(a, c))

    def __lt__(a, b):
        c = lift(b)
        return _nd('less', a, b) if c is None else lt(a, c)

    def __le__(a, b):
        c = lift(b)
        return _nd('less_equal', a, b) if c is None else le(a, c)

    def __gt__(a, b):
        c = lift(b)
        return _nd('greater', a, b) if c is None else lt(c, a)

    def __ge__(a, b):
        c = lift(b)
        return _nd('greater_equal', a, b) if c is None else le(c, a)

    # ------------------------------------------------------------ booleans
    def __and__(a, b):
        return and_(tobool(a), tobool(lift(b)))

    __rand__ = __and__

    def __or__(a, b):
        return or_(tobool(a), tobool(lift(b)))

    __ror__ = __or__

    def __invert__(a):
        if a.sort != 'B':
            raise Unsupported('bitwise not of a number')
        return not_(a)

    def __bool__(self):
        b = tobool(self)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        from . import explore
        return explore.branch(b)

    def __int__(self):
        if self.op == 'num' and self.args[0].denominator == 1:
            return int(self.args[0])
        if _formatting():
            return 0
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        return self.__int__()

    def __float__(self):
        if self.op == 'num':
            return float(self.args[0])
        if self.op == 'pi':
            return math.pi
        if _formatting():
            return 0.0
        raise Unsupported('float() of a symbolic value')

    def __format__(self, spec):
        return str(self)

    def __repr__(self):
        return show(self)

    # numpy-scalar-like attributes
    @property
    def dtype(self):
        return {'R': _np.dtype(float), 'I': _np.dtype(int), 'B': _np.dtype(bool)}[
            self.sort
        ]

    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def flatten(self):
        from . import snp
        return snp.asarray(self).flatten()

    def copy(self):
        return self

    def astype(self, t):
        return cast(self, t)

    def __round__(self, nd=0):
        if nd:
            raise Unsupported('round to digits')
        return rint(self)

    def conjugate(self):
        return self

    def is_integer(self):
        return eq(floor(self), self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _TABLE.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort, t.id, t._nan = op, args, sort, len(_TABLE) + 1, None
        _TABLE[key] = t
    return t


def show(t, depth=12):
    if t.op == 'num':
        return str(t.args[0])
    if t.op == 'sym':
        return t.args[0]
    if t.op in ('true', 'false', 'pi', 'nan', 'inf'):
        return t.op
    if depth == 0:
        return '...'
    if t.op == 'app':
        return f"{t.args[0]}({', '.join(show(a, depth - 1) for a in t.args[1:])})"
    return '(' + ' '.join(
        [t.op] + [show(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args]
    ) + ')'


_ONE = Fraction(1)


def num(x, sort=None):
    if type(x) is int:
        return mk('num', (Fraction(x),), sort or 'I')
    x = Fraction(x)
    return mk('num', (x,), sort or 'R')


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
PI = mk('pi', (), 'R')
NAN = mk('nan', (), 'R')
INF = mk('inf', (), 'R')


def sym(name, sort='R'):
    return mk('sym', (name,), sort)


def app(fname, *args, sort='R'):
    return mk('app', (fname,) + tuple(args), sort)


_FLOATS = {}
# symbolic values for floats produced during symbolic execution are exact; these
# identifications apply to float *constants* of the code (np.pi/2, 1/sqrt(3) ...)


def float_const(x):
    r = _FLOATS.get(x)
    if r is not None:
        return r
    if math.isnan(x):
        r = NAN
    elif math.isinf(x):
        r = INF if x > 0 else mk('*', (num(-1, 'R'), INF), 'R')
    else:
        f = Fraction(x).limit_denominator(5000)
        if float(f) == x:
            r = num(f, 'R')
        else:
            d = Fraction(repr(x))
            r = None
            if len(str(d.denominator)) + len(str(abs(d.numerator))) < 18 and len(repr(x)) < 14:
                r = num(d, 'R')
            if r is None:
                k = Fraction(x / math.pi).limit_denominator(720)
                if k and abs(float(k) * math.pi - x) <= 4e-16 * abs(x):
                    r = mul(num(k, 'R'), PI)
            if r is None:
                k = Fraction(x * math.pi).limit_denominator(720)
                if k and abs(float(k) / math.pi - x) <= 4e-16 * abs(x):
                    r = div(num(k, 'R'), PI)
            if r is None:
                k = Fraction(x * x).limit_denominator(200)
                if k and abs(math.sqrt(k) - abs(x)) <= 3e-16 * abs(x):
                    r = sqrt(num(k, 'R'))
                    if x < 0:
                        r = mul(num(-1, 'R'), r)
            if r is None:
                r = num(d, 'R')
    _FLOATS[x] = r
    return r


def _nd(name, a, b, swap=False):
    """a term combined with a numpy array: element-wise, through the symbolic arrays"""
    if isinstance(b, (_np.ndarray, list)) or type(b).__name__ == 'ndarray':
        from . import snp
        f = getattr(snp, name)
        return f(snp.asarray(b), a) if swap else f(a, snp.asarray(b))
    return NotImplemented


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, _np.integer)):
        return num(int(x))
    if isinstance(x, (float, _np.floating)):
        return float_const(float(x))
    if isinstance(x, Fraction):
        return num(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x[()])
    f = getattr(x, '__symbolic__', None)
    if f is not None:
        return lift(f())
    return None


def L(x):
    r = lift(x)
    if r is None:
        raise Unsupported(f'cannot use {type(x).__name__} as a number')
    return r


def tonum(a):
    if a.sort == 'B':
        if a is TRUE:
            return num(1)
        if a is FALSE:
            return num(0)
        return ite(a, num(1), num(0))
    return a


def tobool(a):
    a = L(a)
    if a.sort == 'B':
        return a
    if a is NAN:
        return TRUE
    return not_(eq(a, num(0)))


def toreal(a):
    a = tonum(a)
    if a.sort == 'I':
        if a.op == 'num':
            return num(a.args[0], 'R')
        return mk('i2r', (a,), 'R')
    return a


def _sort2(a, b):
    return 'I' if a.sort == 'I' and b.sort == 'I' else 'R'


def add(a, b):
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return NAN
    s = _sort2(a, b)
    if s == 'R':
        a, b = toreal(a), toreal(b)
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] + b.args[0], s)
    if a.op == 'num' and a.args[0] == 0:
        return b
    if b.op == 'num' and b.args[0] == 0:
        return a
    if b.op == 'num':
        a, b = b, a
    # canonical linear form for integers
    if s == 'I':
        return _linear_int(a, b)
    return mk('+', (a, b), s)


def linparts(t):
    """integer term -> (const, {atom: coeff})"""
    if t.op == 'num':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(zip(t.args[1::2], t.args[2::2]))
    return Fraction(0), {t: Fraction(1)}


def mklin(c, d):
    items = sorted(((a, k) for a, k in d.items() if k), key=lambda p: p[0].id)
    if not items:
        return num(c, 'I')
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    flat = [c]
    for a, k in items:
        flat += [a, k]
    return mk('lin', tuple(flat), 'I')


def _linear_int(a, b, kb=1):
    ca, da = linparts(a)
    cb, db = linparts(b)
    for t, k in db.items():
        da[t] = da.get(t, Fraction(0)) + kb * k
    return mklin(ca + kb * cb, da)


def sub(a, b):
    a, b = tonum(a), tonum(b)
    if a is b and a is not NAN:
        return num(0, a.sort)
    return add(a, mul(num(-1), b))


def mul(a, b):
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return NAN
    s = _sort2(a, b)
    if s == 'R':
        a, b = toreal(a), toreal(b)
    if b.op == 'num':
        a, b = b, a
    if a.op == 'num':
        if b.op == 'num':
            return num(a.args[0] * b.args[0], s)
        if a.args[0] == 0:
            return num(0, s)
        if a.args[0] == 1:
            return b
        if s == 'I':
            c, d = linparts(b)
            k = a.args[0]
            return mklin(c * k, {t: v * k for t, v in d.items()})
        if b.op == '*' and b.args[0].op == 'num':
            return mul(num(a.args[0] * b.args[0].args[0], s), b.args[1])
    return mk('*', (a, b), s)


def div(a, b):
    a, b = toreal(a), toreal(b)
    if a is NAN or b is NAN:
        return NAN
    if b.op == 'num':
        if b.args[0] == 0:
            if a.op == 'num':
                return NAN if a.args[0] == 0 else mk('/', (a, b), 'R')
            return mk('/', (a, b), 'R')
        return mul(num(1 / b.args[0], 'R'), a)
    if a.op == 'num' and a.args[0] == 0:
        return a
    return mk('/', (a, b), 'R')


def power(a, b):
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return NAN
    if b.op == 'num':
        e = b.args[0]
        if e.denominator == 1 and abs(e) <= 64:
            e = int(e)
            if a.op == 'num':
                if e >= 0:
                    return num(a.args[0] ** e, a.sort)
                if a.args[0] != 0:
                    return num(a.args[0] ** e, 'R')
            if e == 0:
                return num(1, a.sort)
            if e == 1:
                return a
            if e == 2:
                return mul(a, a)
            if e < 0:
                return div(num(1, 'R'), power(toreal(a), num(-e)))
            return mk('powi', (a, e), a.sort)
        if e == Fraction(1, 2):
            return sqrt(a)
        if e == Fraction(3, 2):
            return mul(a, sqrt(a))
        if e == Fraction(-1, 2):
            return div(num(1, 'R'), sqrt(a))
    return mk('powr', (toreal(a), toreal(b)), 'R')


def _root(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    a = toreal(L(a))
    if a is NAN:
        return NAN
    if a.op == 'num':
        f = a.args[0]
        if f < 0:
            return NAN
        rn, rd = _root(f.numerator), _root(f.denominator)
        if rn is not None and rd is not None:
            return num(Fraction(rn, rd), 'R')
        # pull square part out of n*d / d^2
        n, d = f.numerator * f.denominator, f.denominator
        out, p = 1, 2
        while p * p <= n and p < 2000:
            while n % (p * p) == 0:
                n //= p * p
                out *= p
            p += 1
        return mul(num(Fraction(out, d), 'R'), mk('sqrt', (num(n, 'R'),), 'R'))
    return mk('sqrt', (a,), 'R')


def absv(a):
    a = tonum(L(a))
    if a is NAN:
        return a
    if a.op == 'num':
        return num(abs(a.args[0]), a.sort)
    if a.op in ('abs', 'sqrt'):
        return a
    if a.op == '*' and a.args[0].op == 'num' and a.args[0].args[0] < 0:
        return absv(mul(num(-a.args[0].args[0], a.sort), a.args[1]))
    return mk('abs', (a,), a.sort)


def sign(a):
    a = tonum(L(a))
    if a is NAN:
        return a
    return ite(lt(a, num(0)), num(-1, a.sort), ite(eq(a, num(0)), num(0, a.sort), num(1, a.sort)))


def floor(a):
    """floor as an integer term"""
    a = tonum(L(a))
    if a.sort == 'I':
        return a
    if a is NAN:
        return NAN
    if a.op == 'num':
        return num(math.floor(a.args[0]), 'I')
    if a.op == 'i2r':
        return a.args[0]
    return mk('floor', (a,), 'I')


def ceil(a):
    a = tonum(L(a))
    if a.sort == 'I':
        return a
    f = floor(mul(num(-1), a))
    return NAN if f is NAN else mul(num(-1), f)


def rint(a):
    """round half to even, as an integer term"""
    a = tonum(L(a))
    if a.sort == 'I':
        return a
    if a is NAN:
        return NAN
    if a.op == 'num':
        return num(round(a.args[0]), 'I')
    h = add(a, num(Fraction(1, 2), 'R'))
    f = floor(h)
    # tie: h integer and f odd -> f - 1
    tie = and_(eq(toreal(f), h), eq(mod(f, num(2)), num(1)))
    return sub(f, ite(tie, num(1), num(0)))


def trunc(a):
    a = tonum(L(a))
    if a.sort == 'I':
        return a
    return ite(lt(a, num(0)), ceil(a), floor(a))


def floordiv(a, b):
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return NAN
    if a.sort == 'I' and b.sort == 'I':
        if b.op == 'num' and b.args[0] != 0:
            if b.args[0] == 1:
                return a
            if a.op == 'num':
                return num(a.args[0] // b.args[0], 'I')
        return mk('idiv', (a, b), 'I')
    return toreal(floor(div(a, b)))


def mod(a, b):
    """python modulo: result has the sign of the divisor"""
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return NAN
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0], _sort2(a, b))
    if a.sort == 'I' and b.sort == 'I':
        return mk('imod', (a, b), 'I')
    a, b = toreal(a), toreal(b)
    return sub(a, mul(b, toreal(floor(div(a, b)))))


def fmod(a, b):
    a, b = toreal(L(a)), toreal(L(b))
    return sub(a, mul(b, toreal(trunc(div(a, b)))))


def _fn1(op, z=None):
    def f(a):
        a = toreal(L(a))
        if a is NAN:
            return NAN
        if z is not None and a.op == 'num' and a.args[0] in z:
            return z[a.args[0]]
        return mk(op, (a,), 'R')

    return f


def _pi_coeff(a):
    """a == k*pi -> Fraction k else None"""
    if a is PI:
        return Fraction(1)
    if a.op == 'num' and a.args[0] == 0:
        return Fraction(0)
    if a.op == '*' and a.args[0].op == 'num' and a.args[1] is PI:
        return a.args[0].args[0]
    return None


_CANON = {}


def canon(a):
    """the same sum or product of the same factors, in one order (arguments of trigonometric functions)"""
    if a.op not in ('*', '+'):
        return a
    r = _CANON.get(a)
    if r is None:
        flat, todo = [], [a]
        while todo:
            t = todo.pop()
            if t.op == a.op and t.sort == a.sort:
                todo += t.args
            else:
                t = canon(t)
                (todo if t.op == a.op and t.sort == a.sort else flat).append(t)
        k = [t for t in flat if t.op == 'num']
        flat = sorted((t for t in flat if t.op != 'num'), key=lambda t: t.id)
        r = None
        for t in flat:
            r = t if r is None else mul(r, t) if a.op == '*' else add(r, t)
        for t in k:
            r = t if r is None else mul(t, r) if a.op == '*' else add(r, t)
        _CANON[a] = r
    return r


def sin(a):
    a = canon(toreal(L(a)))
    if a is NAN:
        return NAN
    k = _pi_coeff(a)
    if k is not None:
        r = _SINPI.get(k % 2)
        if r is not None:
            return r()
    if a.op == '*' and a.args[0].op == 'num' and a.args[0].args[0] < 0:
        return mul(num(-1), sin(mul(num(-1), a)))
    return mk('sin', (a,), 'R')


def cos(a):
    a = canon(toreal(L(a)))
    if a is NAN:
        return NAN
    k = _pi_coeff(a)
    if k is not None:
        r = _SINPI.get((k + Fraction(1, 2)) % 2)
        if r is not None:
            return r()
    if a.op == '*' and a.args[0].op == 'num' and a.args[0].args[0] < 0:
        return cos(mul(num(-1), a))
    return mk('cos', (a,), 'R')


def tan(a):
    return div(sin(a), cos(a))


_F = Fraction
_SINPI = {}
for _n, _v in [
    (_F(0), lambda: num(0, 'R')),
    (_F(1, 6), lambda: num(_F(1, 2), 'R')),
    (_F(1, 4), lambda: sqrt(num(_F(1, 2)))),
    (_F(1, 3), lambda: sqrt(num(_F(3, 4)))),
    (_F(1, 2), lambda: num(1, 'R')),
]:
    _SINPI[_n] = _v
    _SINPI[1 - _n] = _v
    _SINPI[(1 + _n) % 2] = lambda v=_v: mul(num(-1), v())
    _SINPI[(2 - _n) % 2] = lambda v=_v: mul(num(-1), v())
_SINPI[_F(0)] = lambda: num(0, 'R')
_SINPI[_F(1)] = lambda: num(0, 'R')

asin = _fn1('asin', {_F(0): num(0, 'R'), _F(1): mul(num(_F(1, 2)), PI), _F(-1): mul(num(_F(-1, 2)), PI)})
acos = _fn1('acos', {_F(1): num(0, 'R'), _F(0): mul(num(_F(1, 2)), PI), _F(-1): PI})
atan = _fn1('atan', {_F(0): num(0, 'R'), _F(1): mul(num(_F(1, 4)), PI)})
log = _fn1('log', {_F(1): num(0, 'R')})
sinh = _fn1('sinh', {_F(0): num(0, 'R')})
cosh = _fn1('cosh', {_F(0): num(1, 'R')})
tanh = _fn1('tanh', {_F(0): num(0, 'R')})


def exp(a):
    a = toreal(L(a))
    if a is NAN:
        return NAN
    if a.op == 'num' and a.args[0] == 0:
        return num(1, 'R')
    return mk('exp', (a,), 'R')


def atan2(y, x):
    y, x = toreal(L(y)), toreal(L(x))
    if y is NAN or x is NAN:
        return NAN
    if y.op == 'num' and x.op == 'num':
        if y.args[0] == 0 and x.args[0] >= 0:
            return num(0, 'R')
        if y.args[0] == 0:
            return PI
    return mk('atan2', (y, x), 'R')


# ------------------------------------------------------------------ booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def _junct(op, unit, zero, args):
    out = []
    for a in args:
        a = tobool(a)
        if a is zero:
            return zero
        if a is unit:
            continue
        if a.op == op:
            out += [x for x in a.args if not any(x is y for y in out)]
        elif not any(a is x for x in out):
            out.append(a)
    for a in out:
        n = not_(a)
        if any(n is x for x in out):
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, tuple(sorted(out, key=lambda t: t.id)), 'B')


def and_(*args):
    return _junct('and', TRUE, FALSE, args)


def or_(*args):
    return _junct('or', FALSE, TRUE, args)


def implies(a, b):
    return or_(not_(tobool(a)), tobool(b))


def iff(a, b):
    return eq(tobool(a), tobool(b))


def _const_diff(a, b):
    if a.sort == 'I' and b.sort == 'I':
        d = _linear_int(a, b, -1)
        if d.op == 'num':
            return d.args[0]
        return None
    if a.op == 'num' and b.op == 'num':
        return a.args[0] - b.args[0]
    pa, pb = _pi_coeff(a), _pi_coeff(b)
    if pa is not None and pb is not None:
        d = pa - pb
        return d
    if pa is not None and b.op == 'num' and pa != 0:
        return Fraction(float(pa) * math.pi) - b.args[0]
    if pb is not None and a.op == 'num' and pb != 0:
        return a.args[0] - Fraction(float(pb) * math.pi)
    return None


def _isinf(a):
    if a is INF:
        return 1
    if a.op == '*' and a.args[1] is INF and a.args[0].op == 'num':
        return 1 if a.args[0].args[0] > 0 else -1
    return 0


def eq(a, b):
    a, b = L(a), L(b)
    if a.sort == 'B' and b.sort == 'B':
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if not_(a) is b:
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk('iff', (a, b), 'B')
    a, b = tonum(a), tonum(b)
    if a is NAN or b is NAN:
        return FALSE
    if a is b:
        return TRUE
    ia, ib = _isinf(a), _isinf(b)
    if ia or ib:
        return TRUE if ia == ib else FALSE
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
        if a is b:
            return TRUE
        if a.op == 'i2r' and b.op == 'i2r':
            return eq(a.args[0], b.args[0])
        if a.op == 'i2r' and b.op == 'num':
            if b.args[0].denominator != 1:
                return FALSE
            return eq(a.args[0], num(b.args[0], 'I'))
        if b.op == 'i2r' and a.op == 'num':
            return eq(b, a)
    d = _const_diff(a, b)
    if d is not None:
        return TRUE if d == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def _cmp(op, a, b):
    a, b = tonum(L(a)), tonum(L(b))
    if a is NAN or b is NAN:
        return FALSE
    if a.op == 'ite' and (a.args[1] is NAN or a.args[2] is NAN):
        return ite(a.args[0], _cmp(op, a.args[1], b), _cmp(op, a.args[2], b))
    if b.op == 'ite' and (b.args[1] is NAN or b.args[2] is NAN):
        return ite(b.args[0], _cmp(op, a, b.args[1]), _cmp(op, a, b.args[2]))
    ia, ib = _isinf(a), _isinf(b)
    if ia or ib:
        return TRUE if (ia < ib or (op == 'le' and ia == ib)) else FALSE
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
        if a.op == 'i2r' and b.op == 'i2r':
            a, b = a.args[0], b.args[0]
        elif a.op == 'i2r' and b.op == 'num':
            v = b.args[0]
            if v.denominator == 1:
                a, b = a.args[0], num(v, 'I')
        elif b.op == 'i2r' and a.op == 'num':
            v = a.args[0]
            if v.denominator == 1:
                a, b = num(v, 'I'), b.args[0]
    if a is b:
        return TRUE if op == 'le' else FALSE
    d = _const_diff(a, b)
    if d is not None:
        return TRUE if (d < 0 or (op == 'le' and d == 0)) else FALSE
    if a.sort == 'I' and b.sort == 'I' and op == 'lt':
        # a < b  <=>  a + 1 <= b
        return mk('le', (add(a, num(1)), b), 'B')
    return mk(op, (a, b), 'B')


def lt(a, b):
    return _cmp('lt', a, b)


def le(a, b):
    return _cmp('le', a, b)


def ite(c, a, b):
    c = tobool(c)
    a, b = L(a), L(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    a, b = tonum(a), tonum(b)
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), a.sort)


def minv(a, b):
    return ite(le(a, b), a, b)


def maxv(a, b):
    return ite(le(b, a), a, b)


_PARTIAL = {'sqrt', 'asin', 'acos', 'log'}


def isnan(t):
    """Is the float value of this term a NaN?  Inputs (symbols) are finite;
    NaN arises from the NAN literal and from the real domains of partial functions."""
    t = L(t)
    if t._nan is not None:
        return t._nan
    if t is NAN:
        r = TRUE
    elif t.op in ('num', 'sym', 'pi', 'app', 'inf') or t.sort != 'R':
        r = FALSE
    elif t.op == 'ite':
        r = ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    else:
        parts = [isnan(a) for a in t.args if isinstance(a, T)]
        if t.op in ('sqrt',):
            a = t.args[0]
            if a.op not in ('num',) and not _manifest_nonneg(a):
                parts.append(lt(a, num(0)))
        elif t.op in ('asin', 'acos'):
            parts.append(lt(num(1), absv(t.args[0])))
        elif t.op == 'log':
            parts.append(lt(t.args[0], num(0)))
        elif t.op == '/':
            parts.append(and_(eq(t.args[0], num(0)), eq(t.args[1], num(0))))
        r = or_(*parts)
    t._nan = r
    return r


def _manifest_nonneg(a):
    if a.op == 'num':
        return a.args[0] >= 0
    if a.op in ('abs', 'sqrt', 'exp', 'pi', 'cosh'):
        return True
    if a.op == '*':
        x, y = a.args
        if x is y:
            return True
        return _manifest_nonneg(x) and _manifest_nonneg(y)
    if a.op == '+':
        return all(_manifest_nonneg(x) for x in a.args)
    if a.op == '/':
        return all(_manifest_nonneg(x) for x in a.args)
    if a.op == 'powi':
        return a.args[1] % 2 == 0 or _manifest_nonneg(a.args[0])
    if a.op == 'ite':
        return _manifest_nonneg(a.args[1]) and _manifest_nonneg(a.args[2])
    return False


def cast(a, t):
    a = L(a)
    t = _np.dtype(t) if not isinstance(t, _np.dtype) else t
    if t.kind == 'b':
        return tobool(a)
    if t.kind in 'iu':
        if a.sort == 'I':
            return a
        if a.sort == 'B':
            return tonum(a)
        if a is NAN:
            return NAN
        return trunc(a)
    if t.kind == 'f':
        return toreal(a)
    raise Unsupported(f'cast to {t}')


# ------------------------------------------------------------------ traversal
def rebuild(t, args):
    op = t.op
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    if op == 'lin':
        r = num(t.args[0], 'I')
        for a, k in zip(args, t.args[2::2]):
            r = add(r, mul(num(k, 'I'), a))
        return r
    if op == 'powi':
        return power(args[0], num(t.args[1]))
    if op == 'app':
        return mk('app', (t.args[0],) + tuple(args), t.sort)
    raise Unsupported('rebuild ' + op)


_REBUILD = {
    '+': add, '*': mul, '/': div, 'powr': power, 'sqrt': sqrt, 'abs': absv,
    'sin': sin, 'cos': cos, 'asin': asin, 'acos': acos, 'atan': atan, 'log': log,
    'exp': exp, 'atan2': atan2, 'sinh': sinh, 'cosh': cosh, 'tanh': tanh,
    'floor': floor, 'idiv': floordiv, 'imod': mod, 'i2r': toreal,
    'not': not_, 'and': and_, 'or': or_, 'iff': eq, 'eq': eq, 'lt': lt, 'le': le,
    'ite': ite,
}


def children(t):
    return tuple(a for a in t.args if isinstance(a, T))


def subst(t, env, memo=None):
    """replace terms (dict T->T) bottom-up"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x in env:
            memo[x] = env[x]
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c not in memo]
        if todo:
            stack.extend(todo)
            continue
        new = tuple(memo[c] for c in ch)
        memo[x] = x if all(p is q for p, q in zip(new, ch)) else rebuild(x, new)
        stack.pop()
    return memo[t]


def subterms(ts):
    seen, stack, out = set(), list(ts), []
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        stack.extend(children(t))
    return out


def symbols(ts):
    return [t for t in subterms(ts) if t.op == 'sym']


# ------------------------------------------------------------------ evaluation
def _ev_div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a)
    return a / b


def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return math.nan

    return g


_EV = {
    '+': lambda a, b: a + b, '*': lambda a, b: a * b, '/': _ev_div,
    'powr': _safe(lambda a, b: a ** b if not isinstance(a ** b, complex) else math.nan),
    'sqrt': _safe(math.sqrt), 'abs': abs, 'sin': _safe(math.sin), 'cos': _safe(math.cos),
    'asin': _safe(math.asin), 'acos': _safe(math.acos), 'atan': math.atan,
    'log': _safe(lambda a: -math.inf if a == 0 else math.log(a)),
    'exp': _safe(math.exp), 'atan2': math.atan2, 'sinh': _safe(math.sinh),
    'cosh': _safe(math.cosh), 'tanh': math.tanh, 'floor': _safe(math.floor),
    'idiv': _safe(lambda a, b: a // b), 'imod': _safe(lambda a, b: a % b), 'i2r': float,
    'not': lambda a: not a, 'and': lambda *a: all(a), 'or': lambda *a: any(a),
    'iff': lambda a, b: bool(a) == bool(b), 'eq': lambda a, b: a == b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'ite': lambda c, a, b: a if c else b,
}


def evalf(t, env, memo=None):
    """float evaluation; env maps symbol name -> value and app name -> callable"""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x in env:
            memo[x] = env[x]
            stack.pop()
            continue
        ch = children(x)
        if x.op == 'ite' and ch[0] in memo:
            ch = (ch[0], ch[1] if memo[ch[0]] else ch[2])
        elif x.op == 'ite':
            stack.append(ch[0])
            continue
        todo = [c for c in ch if c not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        op = x.op
        if op == 'num':
            v = int(x.args[0]) if x.sort == 'I' else float(x.args[0])
        elif op == 'sym':
            v = env[x.args[0]]
        elif op == 'pi':
            v = math.pi
        elif op == 'nan':
            v = math.nan
        elif op == 'inf':
            v = math.inf
        elif op == 'true':
            v = True
        elif op == 'false':
            v = False
        elif op == 'app':
            v = env[x.args[0]](*[memo[c] for c in ch])
        elif op == 'lin':
            v = int(x.args[0]) + sum(int(k) * memo[c] for c, k in zip(ch, x.args[2::2]))
        elif op == 'powi':
            v = _safe(lambda a, b: a ** b)(memo[ch[0]], x.args[1])
        elif op == 'ite':
            v = memo[ch[1]]
        else:
            v = _EV[op](*[memo[c] for c in ch])
        memo[x] = v
    return memo[t]
