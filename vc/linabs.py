"""Linear abstraction back end: real terms are brought to polynomial normal form over opaque
atoms, every distinct monomial becomes one real variable, and the boolean structure goes to
z3's linear arithmetic.  Unsatisfiability of the abstraction implies that of the original."""
import time
import z3

from . import terms as tm, smt
from .terms import T, Unsupported, TRUE, FALSE
from . import normal

CAP = 600


class Over(Exception):
    pass


def _same(a, b):
    if a is b:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == 'leaf':
        return a[1] is b[1]
    return a[1] is b[1] and _same(a[2], b[2]) and _same(a[3], b[3])


class LinAbs:
    def __init__(self, relations=(), bases=None):
        self.n = normal.Norm(relations, None, bases)
        self.mon, self.side, self.memo = {}, [], {}
        self.bmemo, self.imemo, self.vmemo = {}, {}, {}
        self.tr = smt.Trans()
        self.count = 0
        self.named, self.rmemo = {}, {}

    # ---- ite lifting: ('leaf', T) | ('ite', cond, A, B)
    def tree(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tree(t)
            self.memo[t] = r
        return r

    def _tree(self, t):
        if not self._has_ite(t):
            return ('leaf', t)
        if t.op == 'ite':
            c = t.args[0]
            return self._mk(c, self.restrict(self.tree(t.args[1]), c, True), self.restrict(self.tree(t.args[2]), c, False))
        ch = tm.children(t)
        if t.op == 'abs':
            z = tm.num(0, 'R')

            def ab(tr):
                if tr[0] == 'leaf':
                    return ('ite', tm.le(z, tr[1]), tr, ('leaf', tm.mul(tm.num(-1, 'R'), tr[1])))
                return self._mk(tr[1], ab(tr[2]), ab(tr[3]))
            return ab(self.tree(ch[0]))
        if t.op in ('+', '*', '/', 'powi', 'i2r', 'lin'):
            return self.combine(lambda *a: tm.rebuild(t, a), [self.tree(c) for c in ch], ch)
        # any other function of an argument with ites: a named value
        s = tm.sym(f'uf!{t.id}', t.sort)
        if t.sort == 'R':
            self.named[s.args[0]] = self.uf(t)
        return ('leaf', s)

    def uf(self, t):
        ch = tm.children(t)
        if t.op == 'i2r':
            return z3.ToReal(self.integer(ch[0]))
        so = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
        name = f'{t.op}!' + (t.args[0] if t.op == 'app' else '')
        f = z3.Function(name, *[so[c.sort] for c in ch], so[t.sort])
        a = [self.real(c) if c.sort == 'R' else self.integer(c) if c.sort == 'I' else self.boolean(c) for c in ch]
        r = f(*a)
        if t.op == 'sqrt':
            self.side.append(r >= 0)
        if t.op in ('acos', 'asin', 'atan', 'atan2', 'sin', 'cos'):
            pi = self.tr.PI()
            lo, hi = {'acos': (0, pi), 'asin': (-pi / 2, pi / 2), 'atan': (-pi / 2, pi / 2), 'atan2': (-pi, pi)}.get(t.op, (-1, 1))
            self.side += [r >= lo, r <= hi]
        return r

    def _has_ite(self, t):
        r = self.vmemo.get(t)
        if r is None:
            r = t.op == 'ite' or (t.op == 'abs' and t.sort == 'R') or any(self._has_ite(c) for c in tm.children(t))
            self.vmemo[t] = r
        return r

    @staticmethod
    def _mk(c, a, b):
        if _same(a, b):
            return a
        return ('ite', c, a, b)

    def restrict(self, tr, c, val):
        if tr[0] == 'leaf':
            return tr
        if tr[1] is c:
            return self.restrict(tr[2] if val else tr[3], c, val)
        if tr[1] is tm.not_(c):
            return self.restrict(tr[3] if val else tr[2], c, val)
        return self._mk(tr[1], self.restrict(tr[2], c, val), self.restrict(tr[3], c, val))

    def combine(self, f, trees, ch):
        self.count += 1
        if self.count > CAP * 200:
            raise Over()
        k = next((t for t in trees if t[0] == 'ite'), None)
        if k is None:
            r = f(*[t[1] for t in trees])
            return self.tree(r) if self._has_ite(r) else ('leaf', r)
        c = k[1]
        return self._mk(c, self.combine(f, [self.restrict(t, c, True) for t in trees], ch),
                        self.combine(f, [self.restrict(t, c, False) for t in trees], ch))

    # ---- leaves
    def var(self, key, build):
        v = self.mon.get(key)
        if v is None:
            v = build(f'm!{len(self.mon)}')
            self.mon[key] = v
        return v

    def lin(self, t):
        n = self.n
        p, q = n.rat(t)
        e = z3.RealVal(0)
        # pi is not zero: cancel it
        piv = n.bykey.get('pi')
        if piv is not None and len(q) == 1 and len(p) >= 1:
            mq, = q
            if mq == ((piv, 1),):
                cq = tm.Fraction(q[mq])
                for m, c in p.items():
                    cc = z3.RealVal(str(tm.Fraction(c) / cq))
                    d = dict(m)
                    if d.get(piv):
                        d[piv] -= 1
                        m2 = tuple((k, x) for k, x in m if k != piv) if d[piv] == 0 else tuple((k, d[k]) for k, _ in m)
                        e = e + (cc if m2 == () else cc * self.monomial(m2, None))
                    else:
                        e = e + cc * self.monomial(m, 'pi')
                return e
        qk = None if (len(q) == 1 and () in q) else frozenset(q.items())
        qc = q.get((), 1) if qk is None else 1
        for m, c in p.items():
            cc = z3.RealVal(str(tm.Fraction(c) / tm.Fraction(qc)))
            if m == () and qk is None:
                e = e + cc
            else:
                e = e + cc * self.monomial(m, qk)
        return e

    def monomial(self, m, qk):
        def build(name):
            if qk is None and len(m) == 1 and m[0][1] == 1:
                op, extra = self.n.info[m[0][0]]
                if isinstance(extra, T) and extra.sort == 'I':
                    return z3.ToReal(self.integer(extra))
                if op == 'pi':
                    return self.tr.PI()
                if op == 'term' and isinstance(extra, T) and extra.op == 'sym':
                    return self.named.get(extra.args[0], z3.Real(extra.args[0]))
                if isinstance(extra, T) and extra.op in ('acos', 'asin', 'atan', 'atan2', 'log', 'app', 'sqrt', 'powr'):
                    return self.uf(extra)
                v = z3.Real(name)
                if op == 'sqrt':
                    self.side.append(v >= 0)
                if op in ('sinb', 'cosb'):
                    self.side += [v <= 1, v >= -1]
                return v
            v = z3.Real(name)
            if m == () and qk == 'pi':
                self.side += [v > z3.RealVal('0.31830988618'), v < z3.RealVal('0.31830988619')]
            if qk is None and m and all(k % 2 == 0 for _, k in m):
                self.side.append(v >= 0)
            return v
        return self.var((m, qk), build)

    def zexpr(self, tr):
        memo = self.imemo
        r = memo.get(id(tr))
        r = None if r is None else r[1]
        if r is None:
            if tr[0] == 'leaf':
                r = self.lin(tr[1])
            else:
                r = z3.If(self.boolean(tr[1]), self.zexpr(tr[2]), self.zexpr(tr[3]))
            memo[id(tr)] = (tr, r)
        return r

    def real(self, t):
        r = self.rmemo.get(t)
        if r is None:
            r = self._real(t)
            self.rmemo[t] = r
        return r

    def _real(self, t):
        try:
            if t.sort == 'I':
                return z3.ToReal(self.integer(t))
            if not self._has_ite(t):
                return self.lin(t)
            if t.op == '+':
                return self.real(t.args[0]) + self.real(t.args[1])
            if t.op == '*' and any(a.op == 'num' for a in t.args):
                k, x = t.args if t.args[0].op == 'num' else t.args[::-1]
                return z3.RealVal(str(k.args[0])) * self.real(x)
            if t.op == 'ite':
                return z3.If(self.boolean(t.args[0]), self.real(t.args[1]), self.real(t.args[2]))
            if t.op == 'abs':
                x = self.real(t.args[0])
                return z3.If(x >= 0, x, -x)
            if t.op in ('*', '/', 'powi'):
                return self.zexpr(self.tree(t))
            return self.uf(t)
        except (Over, Unsupported, normal.Blowup, ZeroDivisionError):
            return self.var(('opaque', t), z3.Real)

    def integer(self, t):
        r = self.bmemo.get(('i', t))
        if r is None:
            if t.op == 'num':
                r = z3.IntVal(int(t.args[0]))
            elif t.op == 'sym':
                r = z3.Int(t.args[0])
            elif t.op == '+':
                r = self.integer(t.args[0]) + self.integer(t.args[1])
            elif t.op == '*' and any(a.op == 'num' for a in t.args):
                r = self.integer(t.args[0]) * self.integer(t.args[1])
            elif t.op == 'lin':
                r = z3.IntVal(int(t.args[0]))
                for v, k in zip(t.args[1::2], t.args[2::2]):
                    r = r + int(k) * self.integer(v)
            elif t.op == 'ite':
                r = z3.If(self.boolean(t.args[0]), self.integer(t.args[1]), self.integer(t.args[2]))
            elif t.op == 'floor':
                x = self.real(t.args[0])
                r = self.floor(z3.simplify(x, som=True))
            else:
                r = self.var(('int', t), z3.Int)
            self.bmemo[('i', t)] = r
        return r

    def floor(self, x):
        # integer summands move out of the floor
        out, rest = [], []
        for a in (x.children() if z3.is_add(x) else [x]):
            c, b = (a.arg(0), a.arg(1)) if z3.is_mul(a) and a.num_args() == 2 and z3.is_rational_value(a.arg(0)) else (z3.RealVal(1), a)
            if z3.is_rational_value(b) and b.denominator_as_long() == 1:
                out.append(z3.IntVal(b.numerator_as_long()))
            elif z3.is_to_real(b) and c.denominator_as_long() == 1:
                out.append(c.numerator_as_long() * b.arg(0))
            else:
                rest.append(a)
        if out:
            r = z3.Sum(out)
            return r + self.floor(z3.simplify(z3.Sum(rest), som=True)) if rest else r
        key, neg = ('floor', x.sexpr()), ('floor', z3.simplify(-x, som=True).sexpr())
        if key not in self.mon and neg in self.mon:
            f = self.mon[neg]       # floor(x) from floor(-x)
            return z3.If(z3.ToReal(f) == -x, -f, -f - 1)
        new = key not in self.mon
        r = self.var(key, z3.Int)
        if new:
            self.side += [z3.ToReal(r) <= x, x < z3.ToReal(r) + 1] + [(x < c) == (r < c) for c in (0, 1)]
        return r

    def boolean(self, t):
        r = self.bmemo.get(t)
        if r is None:
            r = self._boolean(t)
            self.bmemo[t] = r
        return r

    def _boolean(self, t):
        op = t.op
        if t is TRUE:
            return z3.BoolVal(True)
        if t is FALSE:
            return z3.BoolVal(False)
        if op == 'sym':
            return z3.Bool(t.args[0])
        if op == 'not':
            return z3.Not(self.boolean(t.args[0]))
        if op in ('and', 'or'):
            return (z3.And if op == 'and' else z3.Or)(*[self.boolean(a) for a in t.args])
        if op == 'iff' or op == 'eq' and t.args[0].sort == 'B':
            return self.boolean(t.args[0]) == self.boolean(t.args[1])
        if op == 'ite':
            return z3.If(*[self.boolean(a) for a in t.args])
        if op in ('eq', 'lt', 'le'):
            a, b = t.args
            if a.sort == 'I' and b.sort == 'I':
                x, y = self.integer(a), self.integer(b)
            else:
                if self.scaled and op != 'eq' and a.op == 'abs':
                    x, rel = a.args[0], (tm.lt if op == 'lt' else tm.le)
                    return z3.And(self.boolean(rel(x, b)), self.boolean(rel(-x, b)))
                if self.scaled and op != 'eq' and b.op == 'abs':
                    x, rel = b.args[0], (tm.lt if op == 'lt' else tm.le)
                    return z3.Or(self.boolean(rel(a, x)), self.boolean(rel(a, -x)))
                if self.scaled and (_has(a, 'pi') or _has(b, 'pi')) and not self._has_ite(a) and not self._has_ite(b):
                    x, y = self.real(tm.sub(a, b) / tm.PI), z3.RealVal(0)
                elif not self._has_ite(a) and not self._has_ite(b):
                    d = tm.sub(a, b)
                    x, y = self.real(d), z3.RealVal(0)
                    if _has(d, 'floor') and _has(d, 'pi'):
                        # same sign after division by pi (links multiples of pi to integers)
                        u = self.real(d / tm.PI)
                        self.side += [(x == 0) == (u == 0), (x < 0) == (u < 0)]
                else:
                    x, y = self.real(a), self.real(b)
            return x == y if op == 'eq' else x < y if op == 'lt' else x <= y
        return self.var(('bool', t), z3.Bool)


_HAS = {}


def _has(t, op):
    k = (t, op)
    r = _HAS.get(k)
    if r is None:
        r = t.op == op or any(_has(c, op) for c in tm.children(t))
        _HAS[k] = r
    return r


DUMP = []


def refuted(assertions, relations=(), ms=3000):
    """True when the assertions are unsatisfiable already in the linear abstraction"""
    if _refuted(assertions, relations, ms):
        return True
    # multiples of pi: the same with every comparison divided by pi
    return (any(_has(a, 'floor') for a in assertions) and any(_has(a, 'pi') for a in assertions)
            and _refuted(assertions, relations, ms, True))


def _refuted(assertions, relations, ms, scaled=False):
    t0 = time.time()
    bases = {}
    for _ in range(12):
        la = LinAbs(relations, bases)
        try:
            la.scaled = scaled
            fs = [la.boolean(a) for a in assertions]
            break
        except normal.Restart:
            continue
        except RecursionError:
            return False
    else:
        return False
    if DUMP is not None:
        DUMP.append((fs, la))
    s = z3.Solver()
    s.set('timeout', int(ms))
    for f in fs + la.side + la.tr.side:
        s.add(f)
    r = s.check()
    smt.STATS['queries'] += 1
    smt.STATS['time'] += time.time() - t0
    return str(r) == 'unsat'
