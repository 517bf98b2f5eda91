"""Translation of terms to z3 and satisfiability queries."""
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import T, Unsupported

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


class Trans:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.n = 0
        self.trig = {}
        self.funcs = {}
        self.pi = None

    def PI(self):
        if self.pi is None:
            self.pi = z3.Real('pi!')
            self.side += [
                self.pi > z3.RealVal('3.14159265358979'),
                self.pi < z3.RealVal('3.14159265358980'),
            ]
        return self.pi

    def fresh(self, tag, sort='R'):
        self.n += 1
        return (z3.Real if sort == 'R' else z3.Int)(f'{tag}!{self.n}')

    def q(self, f):
        return z3.RealVal(str(f))

    def tr(self, t):
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            todo = [c for c in tm.children(x) if c not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x] = self._tr(x)
            stack.pop()
        return memo[t]

    def _tr(self, x):
        op, g = x.op, self.memo
        a = [g[c] for c in tm.children(x)]
        if op == 'num':
            return z3.IntVal(int(x.args[0])) if x.sort == 'I' else self.q(x.args[0])
        if op == 'sym':
            n = x.args[0]
            return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[x.sort](n)
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'pi':
            return self.PI()
        if op in ('nan', 'inf'):
            return self.fresh(op)
        if op == '+':
            return a[0] + a[1]
        if op == '*':
            return a[0] * a[1]
        if op == '/':
            return a[0] / a[1]
        if op == 'lin':
            r = z3.IntVal(int(x.args[0]))
            for v, k in zip(a, x.args[2::2]):
                r = r + int(k) * v
            return r
        if op == 'powi':
            r = a[0]
            for _ in range(x.args[1] - 1):
                r = r * a[0]
            return r
        if op == 'i2r':
            return z3.ToReal(a[0])
        if op == 'ite':
            return z3.If(*a)
        if op == 'not':
            return z3.Not(a[0])
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op in ('iff', 'eq'):
            return a[0] == a[1]
        if op == 'lt':
            return a[0] < a[1]
        if op == 'le':
            return a[0] <= a[1]
        if op == 'abs':
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op == 'floor':
            k = self.fresh('fl', 'I')
            self.side += [z3.ToReal(k) <= a[0], a[0] < z3.ToReal(k) + 1]
            return k
        if op == 'idiv':
            # python floor division
            q, r = self.fresh('q', 'I'), self.fresh('r', 'I')
            self.side.append(
                z3.Implies(
                    a[1] != 0,
                    z3.And(
                        a[0] == a[1] * q + r,
                        z3.If(a[1] > 0, z3.And(r >= 0, r < a[1]), z3.And(r <= 0, r > a[1])),
                    ),
                )
            )
            return q
        if op == 'imod':
            if x.args[1].op == 'num' and x.args[1].args[0] > 0:
                return a[0] % a[1]
            q, r = self.fresh('q', 'I'), self.fresh('r', 'I')
            self.side.append(
                z3.Implies(
                    a[1] != 0,
                    z3.And(
                        a[0] == a[1] * q + r,
                        z3.If(a[1] > 0, z3.And(r >= 0, r < a[1]), z3.And(r <= 0, r > a[1])),
                    ),
                )
            )
            return r
        if op == 'sqrt':
            r = self.fresh('sqrt')
            self.side += [r >= 0, z3.Implies(a[0] >= 0, r * r == a[0])]
            return r
        if op in ('sin', 'cos'):
            t = x.args[0]
            if t not in self.trig:
                s, c = self.fresh('sin'), self.fresh('cos')
                self.trig[t] = (s, c)
                self.side += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
                # exact facts for inverse functions
                if t.op == 'acos':
                    self.side += [c == g[t.args[0]], s >= 0]
                elif t.op == 'asin':
                    self.side += [s == g[t.args[0]], c >= 0]
            return self.trig[t][0 if op == 'sin' else 1]
        if op == 'acos':
            r = self.fresh('acos')
            self.side += [r >= 0, r <= self.PI()]
            u = x.args[0]
            if u.op == 'cos':
                b = g[u.args[0]]
                self.side.append(z3.Implies(z3.And(b >= 0, b <= self.PI()), r == b))
            self.side += [
                (r * 2 < self.PI()) == (a[0] > 0),
                (r * 2 == self.PI()) == (a[0] == 0),
                (r == 0) == (a[0] == 1),
                (r == self.PI()) == (a[0] == -1),
            ]
            return r
        if op == 'asin':
            r = self.fresh('asin')
            self.side += [2 * r >= -self.PI(), 2 * r <= self.PI(), (r > 0) == (a[0] > 0), (r == 0) == (a[0] == 0)]
            return r
        if op == 'atan':
            r = self.fresh('atan')
            self.side += [2 * r > -self.PI(), 2 * r < self.PI(), (r > 0) == (a[0] > 0), (r == 0) == (a[0] == 0)]
            return r
        if op == 'atan2':
            r = self.fresh('atan2')
            self.side += [r > -self.PI(), r <= self.PI(),
                          (r > 0) == z3.Or(a[0] > 0, z3.And(a[0] == 0, a[1] < 0)),
                          (r < 0) == (a[0] < 0)]
            return r
        if op == 'exp':
            r = self.fresh('exp')
            self.side += [r > 0, (r > 1) == (a[0] > 0), (r == 1) == (a[0] == 0), r >= 1 + a[0]]
            return r
        if op == 'log':
            r = self.fresh('log')
            self.side += [z3.Implies(a[0] > 0, z3.And((r > 0) == (a[0] > 1), r <= a[0] - 1))]
            return r
        if op == 'cosh':
            r = self.fresh('cosh')
            self.side += [r >= 1]
            return r
        if op == 'tanh':
            r = self.fresh('tanh')
            self.side += [r > -1, r < 1, (r > 0) == (a[0] > 0)]
            return r
        if op == 'powr':
            r = self.fresh('powr')
            self.side += [z3.Implies(a[0] > 0, r > 0)]
            return r
        if op == 'app':
            name = x.args[0]
            key = (name, tuple(c.sort for c in tm.children(x)), x.sort)
            f = self.funcs.get(key)
            if f is None:
                so = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
                f = z3.Function(name, *[so[s] for s in key[1]], so[x.sort])
                self.funcs[key] = f
            return f(*a)
        r = self.fresh(op, x.sort)
        return r


def check(assertions, timeout_ms=5000, want_model=False):
    """-> 'sat' | 'unsat' | 'unknown' (and model env)"""
    t0 = time.time()
    tr = Trans()
    es = [tr.tr(a) for a in assertions]
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    for e in es + tr.side:
        s.add(e)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    r = str(r)
    if r == 'unknown':
        STATS['unknown'] += 1
    if not want_model:
        return r
    env = {}
    if r == 'sat':
        m = s.model()
        for x, e in tr.memo.items():
            if x.op == 'sym':
                v = m.eval(e, model_completion=True)
                env[x.args[0]] = _val(v)
    return r, env


def _val(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0
