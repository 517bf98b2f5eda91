"""Rational-function normal forms over transcendental/algebraic atoms.

Decides equalities between real terms by cross-multiplying normal forms, with the
reduction rules  cos^2 = 1 - sin^2,  sqrt(e)^2 = e,  |e|^2 = e^2  and user relations
(e.g. unit quaternions).  Sound for terms whose denominators are non-zero and whose
square roots have non-negative arguments (those side conditions are separate
well-definedness obligations).
"""
from fractions import Fraction
from math import lcm

from . import terms as tm
from .terms import T, num, Unsupported

F0, F1 = Fraction(0), Fraction(1)
LIMIT = 60000


class Blowup(Exception):
    pass


class Restart(Exception):
    pass


def padd(a, b, k=F1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            r.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            r.append(a[i])
            i += 1
        else:
            r.append(b[j])
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


ONE = {(): F1}


class Norm:
    def __init__(self, relations=(), oracle=None, bases=None):
        self.atoms = []          # var index -> description key
        self.info = []           # var index -> (op, extra) for z3 / evaluation
        self.sq = {}             # var -> poly for var^2
        self.pw = {}             # var -> (n, poly) for var^n
        self.bykey = {}
        self.byop = {}
        self.memo = {}
        self.trig = {}
        self.bases = bases if bases is not None else {}
        self.oracle = oracle     # callable(poly, self) -> sign in {1,-1,0,None}
        self.relterms = relations
        self.rels_done = False
        for s, rhs in relations:
            v = self.var(('t', s), 'term', s)
        for s, rhs in relations:
            v = self.bykey[('t', s)]
            p, q = self.rat(rhs)
            assert len(q) == 1 and () in q
            self.sq[v] = pscale(p, 1 / q[()])

    # ------------------------------------------------------------ variables
    def var(self, key, op=None, extra=None):
        v = self.bykey.get(key)
        if v is None:
            v = len(self.atoms)
            self.atoms.append(key)
            self.info.append((op, extra))
            self.bykey[key] = v
        return v

    def pv(self, v):
        return {((v, 1),): F1}

    # ------------------------------------------------------------ polynomials
    def mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1 and () in a:
            return pscale(b, a[()])
        if len(b) == 1 and () in b:
            return pscale(a, b[()])
        if len(a) * len(b) > 3000000:
            raise Blowup()
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = mmul(ma, mb)
                v = r.get(m)
                r[m] = ca * cb if v is None else v + ca * cb
        r = {m: c for m, c in r.items() if c}
        if len(r) > LIMIT:
            raise Blowup()
        return self.reduce(r)

    def reduce(self, p):
        if not self.sq and not self.pw:
            return p
        work = p
        for _ in range(400):
            bad = None
            for m in work:
                for v, e in m:
                    if e >= 2 and (v in self.sq or (v in self.pw and e >= self.pw[v][0])):
                        # reduce the highest variable first
                        if bad is None or v > bad:
                            bad = v
            if bad is None:
                return work
            v = bad
            n, rel = (2, self.sq[v]) if v in self.sq else self.pw[v]
            out = {}
            pows = {0: ONE, 1: rel}
            for m, c in work.items():
                e = 0
                rest = m
                for i, (vv, ee) in enumerate(m):
                    if vv == v:
                        e = ee
                        rest = m[:i] + m[i + 1:]
                        break
                if e < n:
                    w = out.get(m, F0) + c
                    if w:
                        out[m] = w
                    else:
                        out.pop(m, None)
                    continue
                k, r0 = divmod(e, n)
                if k not in pows:
                    q = ONE
                    for _i in range(k):
                        q = self._rawmul(q, rel)
                    pows[k] = q
                base = rest if not r0 else mmul(rest, ((v, r0),))
                for m2, c2 in pows[k].items():
                    mm = mmul(base, m2)
                    w = out.get(mm, F0) + c * c2
                    if w:
                        out[mm] = w
                    else:
                        out.pop(mm, None)
            if len(out) > LIMIT:
                raise Blowup()
            work = out
        raise Blowup()

    def _rawmul(self, a, b):
        r = {}
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = mmul(ma, mb)
                r[m] = r.get(m, F0) + ca * cb
        return {m: c for m, c in r.items() if c}

    def ppow(self, a, n):
        r = ONE
        while n:
            if n & 1:
                r = self.mul(r, a)
            n >>= 1
            if n:
                a = self.mul(a, a)
        return r

    # ------------------------------------------------------------ rationals
    def rmul(self, a, b):
        return self.simp(self.mul(a[0], b[0]), self.mul(a[1], b[1]))

    def radd(self, a, b):
        if a[1] == b[1]:
            return self.simp(padd(a[0], b[0]), a[1])
        if len(a[1]) == 1 and () in a[1]:
            return self.simp(padd(self.mul(a[0], pscale(b[1], 1 / a[1][()])), b[0]), b[1])
        if len(b[1]) == 1 and () in b[1]:
            return self.radd(b, a)
        q = self.exact_div(b[1], a[1])
        if q is not None:
            return self.simp(padd(self.mul(a[0], q), b[0]), b[1])
        q = self.exact_div(a[1], b[1])
        if q is not None:
            return self.simp(padd(self.mul(b[0], q), a[0]), a[1])
        return self.simp(
            padd(self.mul(a[0], b[1]), self.mul(b[0], a[1])), self.mul(a[1], b[1])
        )

    def rdiv(self, a, b):
        return self.rmul(a, (b[1], b[0]))

    def exact_div(self, a, b, cap=4000):
        """polynomial exact division (lex), None when not exact"""
        if not b or len(b) > 60 or len(a) > 3000:
            return None
        lead = lambda p: max(p, key=lambda m: self._mkey(m))
        q = {}
        a = dict(a)
        lb = lead(b)
        cb = b[lb]
        n = 0
        while a:
            n += 1
            if n > cap:
                return None
            la = lead(a)
            d = self._mdiv(la, lb)
            if d is None:
                return None
            c = a[la] / cb
            q[d] = q.get(d, F0) + c
            a = padd(a, {mmul(d, m): cc for m, cc in b.items()}, -c)
        return q

    def _mkey(self, m):
        # graded-lex like total order compatible with multiplication
        return (sum(e for _, e in m), tuple((-v, e) for v, e in m))

    def _mdiv(self, a, b):
        d = dict(a)
        for v, e in b:
            x = d.get(v, 0) - e
            if x < 0:
                return None
            if x:
                d[v] = x
            else:
                d.pop(v, None)
        return tuple(sorted(d.items()))

    def simp(self, p, q):
        if not p:
            return {}, ONE
        if not q:
            raise ZeroDivisionError('normal form: identically zero denominator')
        if len(q) == 1:
            (m, c), = q.items()
            if c != 1:
                p, q = pscale(p, 1 / c), {m: F1}
            if m:
                # cancel common monomial
                g = dict(m)
                for mm in p:
                    d = dict(mm)
                    for v in list(g):
                        g[v] = min(g[v], d.get(v, 0))
                        if not g[v]:
                            del g[v]
                    if not g:
                        break
                if g:
                    gm = tuple(sorted(g.items()))
                    p = {self._mdiv(mm, gm): c for mm, c in p.items()}
                    q = {self._mdiv(m, gm): F1}
            return p, q
        if p == q:
            return ONE, ONE
        if len(q) <= 40 and len(p) <= 600:
            d = self.exact_div(p, q)
            if d is not None:
                return d, ONE
            if len(p) <= len(q):
                d = self.exact_div(q, p)
                if d is not None:
                    return self.simp(ONE, d) if len(d) == 1 else (ONE, d)
        # make q monic w.r.t. its largest monomial
        l = max(q, key=self._mkey)
        c = q[l]
        if c != 1:
            p, q = pscale(p, 1 / c), pscale(q, 1 / c)
        return p, q

    def eqrat(self, a, b):
        if a[1] == b[1]:
            return not padd(a[0], b[0], -F1)
        return not padd(self.mul(a[0], b[1]), self.mul(b[0], a[1]), -F1)

    # ------------------------------------------------------------ atoms by value
    def atom(self, op, keyterms, extra=None):
        """variable for op applied to rational functions, identified up to equality"""
        for ks, v in self.byop.get(op, ()):
            if len(ks) == len(keyterms) and all(
                (x is y) if not isinstance(x, tuple) else
                (isinstance(y, tuple) and self.eqrat(x, y))
                for x, y in zip(ks, keyterms)
            ):
                return v
        v = self.var((op, len(self.atoms)), op, extra if extra is not None else keyterms)
        self.byop.setdefault(op, []).append((keyterms, v))
        return v

    # ------------------------------------------------------------ main
    def rat(self, t):
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            if x.op in ('ite', 'nan', 'inf') or x.sort == 'B':
                raise Unsupported('normal form of ' + x.op)
            todo = [c for c in tm.children(x) if c not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x] = self._rat(x)
            stack.pop()
        return memo[t]

    def _rat(self, x):
        op, g = x.op, self.memo
        if op == 'num':
            return ({(): x.args[0]} if x.args[0] else {}), ONE
        if op == 'pi':
            return self.pv(self.var('pi', 'pi')), ONE
        if op == 'sym':
            return self.pv(self.var(('t', x), 'term', x)), ONE
        if op == '+':
            return self.radd(g[x.args[0]], g[x.args[1]])
        if op == '*':
            return self.rmul(g[x.args[0]], g[x.args[1]])
        if op == '/':
            return self.rdiv(g[x.args[0]], g[x.args[1]])
        if op == 'i2r':
            return g[x.args[0]]
        if op == 'lin':
            r = ({(): x.args[0]} if x.args[0] else {}), ONE
            for a, k in zip(x.args[1::2], x.args[2::2]):
                r = self.radd(r, (pscale(g[a][0], k), g[a][1]))
            return r
        if op == 'powi':
            p, q = g[x.args[0]]
            return self.simp(self.ppow(p, x.args[1]), self.ppow(q, x.args[1]))
        if op == 'sqrt':
            return self.sqrt(g[x.args[0]])
        if op == 'abs':
            return self.abs(g[x.args[0]])
        if op in ('sin', 'cos'):
            return self.sincos(x.args[0])[0 if op == 'cos' else 1]
        if op == 'exp':
            return self.exp(g[x.args[0]])
        if op == 'powr':
            return self.powr(g[x.args[0]], g[x.args[1]])
        if op == 'app':
            return self.pv(self.atom('app:' + x.args[0], tuple(g[a] for a in x.args[1:]), x)), ONE
        if op in ('sinh', 'cosh'):
            p = self.exp(g[x.args[0]])
            m = self.rdiv((ONE, ONE), p)
            if op == 'sinh':
                m = (pscale(m[0], -F1), m[1])
            r = self.radd(p, m)
            return pscale(r[0], Fraction(1, 2)), r[1]
        if op == 'tanh':
            p = self.exp(g[x.args[0]])
            p2 = self.rmul(p, p)
            return self.rdiv(self.radd(p2, ({(): -F1}, ONE)), self.radd(p2, (ONE, ONE)))
        # opaque atoms
        return self.pv(self.atom(op, tuple(g[a] for a in tm.children(x)), x)), ONE

    # ------------------------------------------------------------ sqrt / abs
    def sign_of(self, p):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return 1 if p[()] > 0 else -1
        # sum of squares / sqrt atoms with positive coefficients
        ok = True
        for m, c in p.items():
            if c < 0 or any(e % 2 and self.info[v][0] not in ('sqrt', 'abs', 'exp') for v, e in m):
                ok = False
                break
        if ok:
            return 1
        if self.oracle is not None:
            return self.oracle(p, self)
        return None

    def abs(self, r):
        p, q = r
        if not p:
            return r
        sp = self.sign_of(p)
        sq_ = self.sign_of(q)
        pp = self._absp(p, sp)
        qq = self._absp(q, sq_)
        return self.simp(pp, qq)

    def _absp(self, p, s):
        if s == 1 or s == 0:
            return p
        if s == -1:
            return pscale(p, -F1)
        # pull positive monomial factors out: |c*m*rest|
        if len(p) == 1:
            (m, c), = p.items()
            out = {(): abs(c)}
            for v, e in m:
                s = self.sign_of(self.pv(v))
                if s == 1:
                    f = {((v, e),): F1}
                elif s == -1:
                    f = {((v, e),): F1 if e % 2 == 0 else -F1}
                elif e % 2 == 0:
                    f = {((v, e),): F1}
                else:
                    a = self._absatom(self.pv(v))
                    f = {((v, e - 1),): F1} if e > 1 else ONE
                    f = self.mul(f, self.pv(a))
                out = self.mul(out, f)
            return out
        l = max(p, key=self._mkey)
        c = p[l]
        v = self._absatom(pscale(p, 1 / c))
        return pscale(self.pv(v), abs(c))

    def _absatom(self, p):
        v = self.atom('abs', ((p, ONE),))
        if v not in self.sq:
            self.sq[v] = self.mul(p, p)
        return v

    def psqrt(self, p):
        """polynomial s with s*s == p (as plain polynomials) or None"""
        if not p:
            return {}
        if len(p) > 400:
            return None
        lead = max(p, key=self._mkey)
        c = p[lead]
        if c < 0 or any(e % 2 for _, e in lead):
            return None
        rn, rd = tm._root(c.numerator), tm._root(c.denominator)
        if rn is None or rd is None:
            return None
        m0 = tuple((v, e // 2) for v, e in lead)
        s = {m0: Fraction(rn, rd)}
        rem = padd(p, self._rawmul(s, s), -F1)
        n = 0
        while rem:
            n += 1
            if n > 60:
                return None
            l = max(rem, key=self._mkey)
            d = self._mdiv(l, m0)
            if d is None or self._mkey(d) >= self._mkey(m0):
                return None
            k = rem[l] / (2 * s[m0])
            t = {d: k}
            # rem -= 2 s t + t^2
            rem = padd(rem, self._rawmul(s, t), Fraction(-2) * F1)
            rem = padd(rem, self._rawmul(t, t), -F1)
            s = padd(s, t)
        return s

    def sqrt(self, r):
        p, q = r
        if not p:
            return {}, ONE
        # sqrt(p/q) = sqrt(p*q)/|q|
        if not (len(q) == 1 and () in q):
            s = self.psqrt(q)
            if s is not None:
                num_ = self.sqrt((p, ONE))
                return self.rdiv(num_, (self._absp(s, self.sign_of(s)), ONE))
            num_ = self.sqrt((self.mul(p, q), ONE))
            return self.rdiv(num_, (self._absp(q, self.sign_of(q)), ONE))
        if q != ONE:
            p = pscale(p, 1 / q[()])
        s = self.psqrt(p)
        if s is None and self.relterms:
            s = self._psqrt_rel(p)
        if s is not None:
            return self._absp(s, self.sign_of(s)), ONE
        # pull out rational square content and even monomial factors
        den = 1
        for c in p.values():
            den = lcm(den, c.denominator)
        numg = 0
        from math import gcd
        for c in p.values():
            numg = gcd(numg, (c * den).numerator)
        content = Fraction(numg, den)
        k = tm.sqrt(num(content))
        p = pscale(p, 1 / content)
        g = None
        for m in p:
            d = {v: e for v, e in m}
            if g is None:
                g = d
            else:
                g = {v: min(e, d[v]) for v, e in g.items() if v in d}
        half = {v: e // 2 for v, e in (g or {}).items() if e >= 2}
        pref = ONE
        if half:
            gm = tuple(sorted((v, 2 * e) for v, e in half.items()))
            p = {self._mdiv(m, gm): c for m, c in p.items()}
            hp = {tuple(sorted(half.items())): F1}
            pref = self._absp(hp, self.sign_of(hp))
        kp = self.rat(k) if k.op != 'sqrt' and not (k.op == '*') else self._const_sqrt(content)
        if len(p) == 1 and () in p:
            return self.rmul(kp, (pref, ONE))
        # factor structure is not searched further
        v = self.atom('sqrt', ((p, ONE),))
        if v not in self.sq:
            self.sq[v] = p
        return self.rmul(kp, (self.mul(pref, self.pv(v)), ONE))

    def _psqrt_rel(self, p):
        """try p = (a*v + ...)^2 modulo a relation v^2 = rhs, single term case:
        p == k * rhs  ->  sqrt(k) * v"""
        for s, _ in self.relterms:
            v = self.bykey[('t', s)]
            rel = self.sq[v]
            l = max(rel, key=self._mkey)
            if l in p:
                k = p[l] / rel[l]
                if k > 0 and pscale(rel, k) == p:
                    rn, rd = tm._root(k.numerator), tm._root(k.denominator)
                    if rn is not None and rd is not None:
                        return {((v, 1),): Fraction(rn, rd)}
        return None

    def _const_sqrt(self, f):
        """sqrt of a positive rational as rational * product of prime roots"""
        n, d = f.numerator * f.denominator, f.denominator
        out = 1
        primes = []
        p = 2
        while p * p <= n and p < 100000:
            while n % (p * p) == 0:
                n //= p * p
                out *= p
            if n % p == 0:
                primes.append(p)
                n //= p
            p += 1
        if n > 1:
            primes.append(n)
        r = {(): Fraction(out, d)}
        for q in primes:
            v = self.var(('root', q), 'sqrt', (({(): Fraction(q)}, ONE),))
            self.sq[v] = {(): Fraction(q)}
            r = self.mul(r, self.pv(v))
        return r, ONE

    # ------------------------------------------------------------ linear arguments
    def linear(self, t):
        """rat(t) as {monomial: coeff} (polynomial with constant denominator)"""
        p, q = self.rat(t) if isinstance(t, T) else t
        if len(q) == 1 and () in q:
            return pscale(p, 1 / q[()])
        return None

    def sincos(self, t):
        hit = self.trig.get(t)
        if hit is not None:
            return hit
        lin = self.linear(t)
        if lin is None:
            lin = self._frac_linear(self.rat(t))
        c, s = (ONE, ONE), ({}, ONE)
        c = (ONE, ONE)
        for m, k in sorted(lin.items(), key=lambda kv: str(kv[0])):
            cc, ss = self._angle(m, k)
            c, s = (
                self.radd(self.rmul(c, cc), self._neg(self.rmul(s, ss))),
                self.radd(self.rmul(s, cc), self.rmul(c, ss)),
            )
        self.trig[t] = (c, s)
        return c, s

    def _frac_linear(self, r):
        """p/q with non-constant q: one opaque angle atom, sign-normalised"""
        p, q = r
        l = max(p, key=self._mkey)
        v = self.atom('angle', ((pscale(p, 1 / p[l]), q),))
        return {((v, 1),): p[l]}

    def _neg(self, r):
        return pscale(r[0], -F1), r[1]

    def _angle(self, m, k):
        piv = self.bykey.get('pi')
        if piv is not None and m == ((piv, 1),):
            a = tm.cos(tm.mul(num(k, 'R'), tm.PI))
            b = tm.sin(tm.mul(num(k, 'R'), tm.PI))
            if a.op != 'cos':
                return self.rat(a), self.rat(b)
        key = self._mterm(m)
        d = self.bases.get(key, 1)
        if (k * d).denominator != 1:
            self.bases[key] = lcm(d, k.denominator)
            raise Restart()
        n = int(k * d)
        c, s = self._base(m, d, key)
        neg = n < 0
        n = abs(n)
        rc, rs = (ONE, ONE), ({}, ONE)
        for bit in bin(n)[2:]:
            rc, rs = (
                self.radd(self.rmul(rc, rc), self._neg(self.rmul(rs, rs))),
                self.rmul(({(): Fraction(2)}, ONE), self.rmul(rc, rs)),
            )
            if bit == '1':
                rc, rs = (
                    self.radd(self.rmul(rc, c), self._neg(self.rmul(rs, s))),
                    self.radd(self.rmul(rs, c), self.rmul(rc, s)),
                )
        return rc, (self._neg(rs) if neg else rs)

    def _mterm(self, m):
        """stable key of a monomial across restarts"""
        return tuple(
            (self.atoms[v] if not (isinstance(self.atoms[v], tuple) and isinstance(self.atoms[v][-1], int) and self.info[v][0] not in ('term', 'pi')) else
             (self.info[v][0], v), e)
            for v, e in m
        )

    def _base(self, m, d, key):
        if len(m) == 1 and m[0][1] == 1:
            v = m[0][0]
            op, extra = self.info[v]
            if op in ('acos', 'asin', 'atan2', 'atan') and isinstance(extra, T):
                args = [self.rat(a) for a in extra.args]
                half = ({(): Fraction(1, 2)}, ONE)
                one = (ONE, ONE)
                if op == 'acos':
                    c = args[0]
                    s = self.sqrt(self.radd(one, self._neg(self.rmul(c, c))))
                    s_sign = 1
                elif op == 'asin':
                    s = args[0]
                    c = self.sqrt(self.radd(one, self._neg(self.rmul(s, s))))
                elif op == 'atan2':
                    y, x = args
                    r = self.sqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
                    c, s = self.rdiv(x, r), self.rdiv(y, r)
                else:
                    x = args[0]
                    r = self.sqrt(self.radd(one, self.rmul(x, x)))
                    c, s = self.rdiv(one, r), self.rdiv(x, r)
                if d == 1:
                    return c, s
                if d == 2:
                    ch = self.sqrt(self.rmul(half, self.radd(one, c)))
                    if op == 'acos':
                        sh = self.sqrt(self.rmul(half, self.radd(one, self._neg(c))))
                    else:
                        sh = self.rdiv(self.rmul(half, s), ch)
                    return ch, sh
        sv = self.var(('sin', key, d), 'sinb', (m, d))
        cv = self.var(('cos', key, d), 'cosb', (m, d))
        if cv not in self.sq:
            self.sq[cv] = {(): F1, ((sv, 2),): -F1}
        return (self.pv(cv), ONE), (self.pv(sv), ONE)

    def exp(self, r):
        lin = self.linear(r)
        if lin is None:
            p, q = r
            l = max(p, key=self._mkey)
            v = self.atom('expq', ((pscale(p, 1 / p[l]), q),))
            lin = {((v, 1),): p[l]}
        out = (ONE, ONE)
        for m, k in sorted(lin.items(), key=lambda kv: str(kv[0])):
            key = ('exp', self._mterm(m))
            # exp(k*log(u)) = u^k for integer k
            if len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]][0] == 'log' and k.denominator == 1:
                b = self.rat(self.info[m[0][0]][1].args[0])
                n = int(k)
                b = b if n > 0 else (b[1], b[0])
                for _ in range(abs(n)):
                    out = self.rmul(out, b)
                continue
            d = self.bases.get(key, 1)
            if (k * d).denominator != 1:
                self.bases[key] = lcm(d, k.denominator)
                raise Restart()
            v = self.var(('exp', key, d), 'exp', (m, d))
            n = int(k * d)
            f = {((v, abs(n)),): F1}
            out = self.rmul(out, (f, ONE)) if n > 0 else self.rdiv(out, (f, ONE))
        return out

    def powr(self, a, b):
        lin = self.linear(b)
        if lin is None:
            return self.pv(self.atom('powr', (a, b))), ONE
        out = (ONE, ONE)
        for m, k in sorted(lin.items(), key=lambda kv: str(kv[0])):
            if m == ():
                if k.denominator == 1:
                    n = int(k)
                    f = a if n > 0 else (a[1], a[0])
                    for _ in range(abs(n)):
                        out = self.rmul(out, f)
                    continue
                p, q = a
                den = k.denominator
                if den == 2:
                    f = self.sqrt(a)
                else:
                    f = self._nroot(a, den)
                n = k.numerator
                f = f if n > 0 else (f[1], f[0])
                for _ in range(abs(n)):
                    out = self.rmul(out, f)
                continue
            l = k
            v = self.atom('powr', (a, ({m: Fraction(1, l.denominator)}, ONE)))
            f = (self.pv(v), ONE)
            n = l.numerator
            f = f if n > 0 else (f[1], f[0])
            for _ in range(abs(n)):
                out = self.rmul(out, f)
        return out


    def _nroot(self, a, den):
        """real den-th root; products are split over factors known to be positive"""
        p, q = a
        if q != ONE and self.sign_of(q) == 1:
            return self.rdiv(self._nroot((p, ONE), den), self._nroot((q, ONE), den))
        if q == ONE and len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self.sign_of(self.pv(v)) == 1 for v, _ in m):
                out = (ONE, ONE)
                for v, e in m:
                    whole, rest = divmod(e, den)
                    if whole:
                        out = self.rmul(out, ({((v, whole),): F1}, ONE))
                    if rest:
                        r = self._rootatom(self.pv(v), den)
                        for _ in range(rest):
                            out = self.rmul(out, (self.pv(r), ONE))
                for n, inv in ((c.numerator, False), (c.denominator, True)):
                    k, rest, d = 1, 1, 2
                    while n > 1 and d < 100000:
                        e = 0
                        while n % d == 0:
                            n //= d
                            e += 1
                        k *= d ** (e // den)
                        rest *= d ** (e % den)
                        d += 1
                    rest *= n
                    f = ({(): Fraction(k)}, ONE)
                    if rest != 1:
                        r = self._rootatom({(): Fraction(rest)}, den)
                        f = self.rmul(f, (self.pv(r), ONE))
                    out = self.rdiv(out, f) if inv else self.rmul(out, f)
                return out
        if q == ONE:
            return self.pv(self._rootatom(p, den)), ONE
        return self.pv(self.atom('root%d' % den, (a,))), ONE

    def _rootatom(self, p, den):
        v = self.atom('root%d' % den, ((p, ONE),))
        self.pw[v] = (den, p)
        return v


def with_restarts(fn, relations=(), oracle=None):
    bases = {}
    for _ in range(12):
        n = Norm(relations, oracle, bases)
        try:
            return fn(n)
        except Restart:
            continue
    raise Blowup()


def equal(a, b, relations=(), oracle=None):
    def go(n):
        return n.eqrat(n.rat(a), n.rat(b))

    try:
        return with_restarts(go, relations, oracle)
    except (Blowup, ZeroDivisionError):
        return False


def lincomb(a, b, eqs, relations=(), oracle=None, mult=40):
    """a == b follows from the equations eqs [(l, r)] by a rational linear combination of the
    equations, optionally multiplied by one variable of the goal"""
    def go(n):
        p = n.radd(n.rat(a), n.rmul(({(): F1 * -1}, {(): F1}), n.rat(b)))[0]
        p = n.reduce(p)
        if not p:
            return True
        hs = []
        for l, r in eqs:
            h = n.reduce(n.radd(n.rat(l), n.rmul(({(): F1 * -1}, {(): F1}), n.rat(r)))[0])
            if h and len(h) < 400:
                hs.append(h)
        gv = sorted({v for m in p for v, _ in m})
        for level in (0, 1):
            rows = list(hs)
            if level:
                if len(hs) * len(gv) > mult * 20:
                    break
                rows += [n.reduce(n.mul(h, n.pv(v))) for h in hs for v in gv]
            if _inspan(p, rows):
                return True
        return False
    try:
        return with_restarts(go, relations, oracle)
    except (Blowup, ZeroDivisionError):
        return False


def _inspan(p, rows):
    piv = []
    for h in rows:
        h = dict(h)
        for k, r in piv:
            c = h.get(k)
            if c:
                h = padd(h, r, -c)
        if h:
            k = min(h, key=repr)
            c = h[k]
            h = {m: x / c for m, x in h.items()}
            piv.append((k, h))
    for k, r in piv:
        c = p.get(k)
        if c:
            p = padd(p, r, -c)
    return not p
