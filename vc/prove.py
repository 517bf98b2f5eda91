"""Discharging one verification condition  hyps |= goal.

Back ends: 'normal' (exact rational normal forms with algebraic relations for
sqrt/abs/trig/exp atoms) for real equalities, z3 for everything else, after case
splitting on the conditions of `ite` terms.  Before proving, the VC is evaluated at
sampled points that satisfy the hypotheses; a robust counterexample refutes it."""
import math
import random
import time

from . import terms as tm, smt, normal, linabs
from .terms import T, TRUE, FALSE, Unsupported, and_, or_, not_, num


class Result:
    def __init__(self, status, backend='', env=None, detail='', time=0.0):
        self.status, self.backend, self.env, self.detail, self.time = status, backend, env, detail, time

    def __repr__(self):
        return f'<{self.status} {self.backend} {self.detail}>'


# ------------------------------------------------------------------ refutation
def _truth(t, env, tol):
    """three-valued truth of a boolean term at a point: True / False / None (too close)"""
    memo = {}

    def ev(x):
        return tm.evalf(x, env, memo)

    def go(b):
        op = b.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'not':
            r = go(b.args[0])
            return None if r is None else not r
        if op == 'and':
            rs = [go(x) for x in b.args]
            return False if any(r is False for r in rs) else (None if any(r is None for r in rs) else True)
        if op == 'or':
            rs = [go(x) for x in b.args]
            return True if any(r is True for r in rs) else (None if any(r is None for r in rs) else False)
        if op == 'iff':
            p, q = go(b.args[0]), go(b.args[1])
            return None if p is None or q is None else p == q
        if op == 'ite':
            c = go(b.args[0])
            return None if c is None else go(b.args[1] if c else b.args[2])
        if op in ('eq', 'lt', 'le'):
            x, y = ev(b.args[0]), ev(b.args[1])
            if isinstance(x, bool) or isinstance(x, int) and isinstance(y, int):
                return {'eq': x == y, 'lt': x < y, 'le': x <= y}[op]
            if any(isinstance(v, complex) for v in (x, y)) or math.isnan(x) or math.isnan(y):
                return None
            if math.isinf(x) or math.isinf(y):
                return None
            s = 1 + abs(x) + abs(y)
            d = abs(x - y)
            if op == 'eq':
                if d <= tol * s:
                    return True
                return False if d > 1e3 * tol * s else None
            if d <= tol * s:
                return None
            return x < y
        r = ev(b)
        return bool(r)

    try:
        return go(t)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None


def _default(rng, s):
    if s.sort == 'I':
        return rng.randint(0, 6)
    if s.sort == 'B':
        return rng.random() < 0.5
    return rng.choice([rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(0, 1), rng.uniform(-12, 12)])


class AppEnv(dict):
    """uninterpreted functions are sampled as random but fixed functions"""

    def __init__(self, rng):
        super().__init__()
        self.rng = rng
        self.seed = rng.random()

    def fn(self, name, sort):
        key = ('%fn', name)

        def f(*a):
            r = random.Random(repr((self.seed, name, tuple(round(float(x), 9) + 0.0 for x in a))))
            return _default(r, tm.sym('x', sort))
        return f


def sample_env(rng, syms, apps, sampler):
    env = AppEnv(rng)
    if sampler is not None:
        env.update(sampler(rng) or {})
    for s in syms:
        if s.args[0] not in env:
            env[s.args[0]] = _default(rng, s)
    for name, sort in apps:
        if name not in env:
            env[name] = env.fn(name, sort)
    return env


def refute(hyps, goal, sampler=None, seed=0, n=60, tol=1e-9):
    ts = list(hyps) + [goal]
    sub = tm.subterms(ts)
    syms = [x for x in sub if x.op == 'sym']
    apps = {(x.args[0], x.sort) for x in sub if x.op == 'app'}
    rng = random.Random(seed)
    tried = held = 0
    for k in range(n):
        env = sample_env(rng, syms, apps, sampler)
        try:
            if not all(_truth(h, env, 1e-12) is True for h in hyps):
                continue
        except KeyError:
            continue
        tried += 1
        r = _truth(goal, env, tol)
        if r is False:
            return env, tried, held
        if r is True:
            held += 1
    return None, tried, held


# ------------------------------------------------------------------ proving
def _conj(t):
    if t.op == 'and':
        out = []
        for a in t.args:
            out += _conj(a)
        return out
    return [t]


def poly_term(p, n):
    """polynomial of a Norm back to a term"""
    out = num(0, 'R')
    for m, c in p.items():
        t = num(c, 'R')
        for v, e in m:
            f = var_term(v, n)
            if f is None:
                return None
            t = tm.mul(t, tm.power(f, num(e)))
        out = tm.add(out, t)
    return out


def rat_term(r, n):
    a, b = poly_term(r[0], n), poly_term(r[1], n)
    return None if a is None or b is None else tm.div(a, b)


def var_term(v, n):
    op, extra = n.info[v]
    if op == 'term':
        return extra
    if op == 'pi':
        return tm.PI
    if op in ('sinb', 'cosb', 'exp') and isinstance(extra, tuple) and len(extra) == 2:
        m, d = extra
        a = poly_term({m: tm.Fraction(1, d)}, n)
        return None if a is None else {'sinb': tm.sin, 'cosb': tm.cos, 'exp': tm.exp}[op](a)
    if isinstance(extra, T):
        return extra
    if op in ('sqrt', 'abs'):
        a = rat_term(extra[0], n)
        return None if a is None else (tm.sqrt(a) if op == 'sqrt' else tm.absv(a))
    return None


class Oracle:
    def __init__(self, hyps, ms=600, env=None):
        self.hyps, self.ms, self.cache = hyps, ms, {}

    def __call__(self, p, n):
        t = poly_term(p, n)
        if t is None:
            return None
        r = self.cache.get(t)
        if r is None:
            r = self._ask(t)
            self.cache[t] = r
        return r or None

    def _ask(self, t):
        z = num(0, 'R')
        if smt.check(self.hyps + [tm.le(t, z)], self.ms) == 'unsat':
            return 1
        if smt.check(self.hyps + [tm.le(z, t)], self.ms) == 'unsat':
            return -1
        return 0


def _ites(t):
    return [x for x in tm.subterms([t]) if x.op == 'ite']


def _first_cond(t):
    """an atomic condition of an ite whose condition contains no ite itself"""
    for x in tm.subterms([t]):
        if x.op == 'ite' and not any(y.op == 'ite' for y in tm.subterms([x.args[0]])):
            return x.args[0]
    return None


def _propositional(assertions):
    """unsatisfiable with every atomic formula read as a propositional variable"""
    import z3
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            if t is TRUE or t is tm.FALSE:
                r = z3.BoolVal(t is TRUE)
            elif t.op == 'not':
                r = z3.Not(go(t.args[0]))
            elif t.op in ('and', 'or'):
                r = (z3.And if t.op == 'and' else z3.Or)(*[go(a) for a in t.args])
            elif t.op == 'iff' or t.op == 'eq' and t.args[0].sort == 'B':
                r = go(t.args[0]) == go(t.args[1])
            elif t.op == 'ite' and t.sort == 'B':
                r = z3.If(*[go(a) for a in t.args])
            else:
                r = z3.Bool(f'p!{len(memo)}')
            memo[t] = r
        return r
    s = z3.Solver()
    s.set('timeout', 2000)
    for a in assertions:
        s.add(go(tm.tobool(a)))
    return str(s.check()) == 'unsat'


class Budget(Exception):
    pass


def _solved(a, b):
    """an integer equation solved for a symbol of coefficient one"""
    d = tm.sub(a, b)
    if d.op != 'lin':
        return {}
    for x, k in zip(d.args[1::2], d.args[2::2]):
        if x.op == 'sym' and abs(k) == 1:
            y = tm.sub(x, d) if k == 1 else tm.add(x, d)
            if not any(z is x for z in tm.subterms([y])):
                return {x: y}
    return {}


class Prover:
    def __init__(self, relations=(), ms=4000, max_cases=400, use_oracle=True, lemmas=(), deadline=25):
        self.relations, self.ms, self.max_cases, self.use_oracle = list(relations), ms, max_cases, use_oracle
        self.lemmas = list(lemmas)
        self.cases = 0
        self.backends = set()
        self.fail = None
        self.deadline = time.process_time() + deadline

    def prove(self, hyps, goal):
        hyps = [h for h in hyps if h is not TRUE]
        if any(h is FALSE for h in hyps):
            return True
        for g in _conj(goal):
            if not self._one(hyps, g):
                return False
        return True

    def _one(self, hyps, g):
        self.cases += 1
        if self.cases > self.max_cases or time.process_time() > self.deadline:
            self.fail = (hyps, g, 'case budget')
            return False
        if g is TRUE or any(h is g for h in hyps):
            self.backends.add('syntactic')
            return True
        hyps, g = self._subst_eqs(hyps, g)
        if g is TRUE or any(h is g for h in hyps) or any(h is FALSE for h in hyps):
            self.backends.add('syntactic')
            return True
        if g.op == 'and':
            return all(self._one(hyps, x) for x in g.args)
        if g.op == 'iff' and _propositional(hyps + [not_(g)]):
            self.backends.add('propositional')
            return True
        if g.op == 'iff' and not _ites(g):
            a, b = g.args
            if smt.check(hyps + self.lemmas + [not_(g)], self.ms) == 'unsat':
                self.backends.add('z3')
                return True
            return self._one(hyps + [a], b) and self._one(hyps + [b], a)
        if g.op == 'or':
            # quick: any disjunct of equalities by normal form is handled through z3
            pass
        if g.op in ('or', 'iff', 'ite') and _propositional(hyps + [not_(g)]):
            self.backends.add('propositional')
            return True
        c = _first_cond(g)
        if c is None:
            return self._atomic(hyps, g)
        if linabs.refuted(hyps + self.lemmas + [not_(g)], self.relations, 400 if linabs._has(g, 'floor') else self.ms):
            self.backends.add('linear-abstraction')
            return True
        # cheap attempt by z3 first when the goal is not a real equation
        if not (g.op == 'eq' and g.args[0].sort == 'R'):
            if smt.check(hyps + self.lemmas + [not_(g)], min(self.ms, 2500)) == 'unsat':
                self.backends.add('z3')
                return True
        for val, cc in ((TRUE, c), (FALSE, not_(c))):
            hs = hyps + [cc]
            if any(h is not_(cc) for h in hyps) or smt.check(hs + self.lemmas, 1500) == 'unsat':
                continue
            g2 = tm.subst(g, {c: val})
            if not self._one(hs, g2):
                return False
        return True

    def _subst_eqs(self, hyps, g):
        for _ in range(12):
            env = {}
            keep = []
            for h in hyps:
                if h.op == 'eq' and not env:
                    a, b = h.args
                    for x, y in ((a, b), (b, a)):
                        if x.op == 'sym' and x.sort == y.sort and not any(z is x for z in tm.subterms([y])):
                            env = {x: y}
                            break
                    if not env and a.sort == 'I' and b.sort == 'I':
                        env = _solved(a, b)
                    if env:
                        continue
                keep.append(h)
            if not env:
                return hyps, g
            hyps = [tm.subst(h, env) for h in keep]
            g = tm.subst(g, env)
            self.relations = [(tm.subst(s, env), tm.subst(r, env)) for s, r in self.relations]
            self.relations = [(s, r) for s, r in self.relations if s.op == 'sym']
        return hyps, g

    def _atomic(self, hyps, g):
        if linabs._has(g, 'floor') and linabs.refuted(hyps + self.lemmas + [not_(g)], self.relations, 1500):
            self.backends.add('linear-abstraction')
            return True
        if g.op == 'eq' and g.args[0].sort == 'R':
            a, b = g.args
            try:
                if normal.equal(a, b, self.relations, None):
                    self.backends.add('normal-form')
                    return True
                if self.use_oracle and normal.equal(a, b, self.relations, Oracle(hyps + self.lemmas)):
                    self.backends.add('normal-form+z3')
                    return True
                eqs = [(h.args[0], h.args[1]) for x in hyps for h in _conj(x)
                       if h.op == 'eq' and h.args[0].sort == 'R' and not _ites(h)]
                if eqs and normal.lincomb(a, b, eqs[:60], self.relations):
                    self.backends.add('normal-form+hypotheses')
                    return True
            except Unsupported:
                pass
        if g is FALSE:
            if smt.check(hyps + self.lemmas, self.ms) == 'unsat':
                self.backends.add('z3')
                return True
            if linabs.refuted(hyps + self.lemmas, self.relations, self.ms):
                self.backends.add('linear-abstraction')
                return True
            self.fail = (hyps, g, 'reachable')
            return False
        if linabs.refuted(hyps + self.lemmas + [not_(g)], self.relations, self.ms):
            self.backends.add('linear-abstraction')
            return True
        r = smt.check(hyps + self.lemmas + [not_(g)], self.ms)
        if r == 'unsat':
            self.backends.add('z3')
            return True
        self.fail = (hyps, g, r)
        return False


def _generalise(hyps, goal, relations, steps, lemmas, ms, deadline, seed, sampler):
    """replace terms of the goal by fresh symbols, step by step: (pairs [(term, symbol)], facts about the
    symbols, relations of the symbols).  Every replaced subterm is proved equal to the named term and every
    fact is proved of the named terms, so the generalised goal implies the original one."""
    done = {}
    for pairs, facts, rels in steps:
        pairs = [(tm.subst(L_(t), done), s) for t, s in pairs]
        back = {s: t for t, s in pairs}
        for f in list(facts) + [tm.eq(s * s, r) for s, r in rels]:
            f = tm.subst(tm.tobool(f), done)
            p = Prover(relations, ms, 400, True, lemmas, deadline)
            if not p.prove(hyps, tm.subst(f, back)):
                return Result('unproved', 'fact about a named term', detail=tm.show(f, 6)[:400])
        sub = [x for x in tm.subterms([goal] + list(hyps)) if x.sort == 'R' and x.op not in ('num', 'sym')]
        syms = [x for x in tm.subterms([goal] + list(hyps) + [t for t, _ in pairs]) if x.op == 'sym']
        apps = {(x.args[0], x.sort) for x in tm.subterms([goal] + list(hyps) + [t for t, _ in pairs]) if x.op == 'app'}
        rng = random.Random(seed)
        alive = {s: set(sub) for _, s in pairs}
        pts = 0
        for _ in range(200):
            if pts >= 3:
                break
            env = sample_env(rng, syms, apps, sampler)
            if any(_truth(h, env, 1e-12) is False for h in hyps):
                continue
            pts += 1
            memo = {}

            def ev(x):
                try:
                    return float(tm.evalf(x, env, memo))
                except (ValueError, ZeroDivisionError, OverflowError, TypeError, KeyError):
                    return math.nan
            val = {x: ev(x) for x in set().union(*alive.values())}
            for t, s in pairs:
                w = ev(t)
                alive[s] = {x for x in alive[s] if x is t or abs(val[x] - w) <= 1e-7 * (1 + abs(w))}
        env = {}
        for t, s in pairs:
            env[t] = s
            if not pts:
                continue
            for x in alive[s]:
                if x is not t and x not in env:
                    p = Prover(relations, ms, 400, True, lemmas, deadline)
                    if p.prove(hyps, tm.eq(x, t)):
                        env[x] = s
        goal = tm.subst(goal, env)
        hyps = [tm.subst(h, env) for h in hyps] + [tm.subst(tm.tobool(f), done) for f in facts]
        relations = [(a, tm.subst(b, env)) for a, b in relations] + list(rels)
        done = {k: tm.subst(x, env) for k, x in done.items()}
        done.update(env)
    return hyps, goal, relations


def L_(x):
    return tm.L(x)


def prove(hyps, goal, relations=(), sampler=None, seed=0, samples=60, ms=4000, max_cases=400,
          lemmas=(), tol=1e-9, use_oracle=True, deadline=25, split=(), generalise=()):
    t0 = time.time()
    goal = tm.tobool(goal)
    hyps = [tm.tobool(h) for h in hyps]
    if goal is TRUE:
        return Result('proved', 'syntactic', time=0.0)
    env, tried, held = refute(hyps, goal, sampler, seed, samples, tol)
    if env is not None:
        return Result('refuted', 'evaluation', env={k: v for k, v in env.items() if isinstance(k, str) and not callable(v)},
                      detail='counterexample', time=time.time() - t0)
    if generalise:
        r = _generalise(hyps, goal, list(relations), generalise, lemmas, ms, deadline, seed, sampler)
        if isinstance(r, Result):
            r.time = time.time() - t0
            return r
        hyps, goal, relations = r
        if any(h is FALSE for h in hyps) or goal is TRUE:
            return Result('proved', 'syntactic', time=time.time() - t0)
    p = Prover(relations, ms, max_cases, use_oracle, lemmas, deadline)
    alts = [[]]
    for c in split:     # case analysis chosen by the contract: list of exhaustive alternatives
        alts = [a + [tm.tobool(x)] for a in alts for x in c]
    ok = all(p.prove(hyps + a, goal) for a in alts)
    if ok and split:
        ok = all(p.prove(hyps, or_(*[tm.tobool(x) for x in c])) for c in split)
    if ok:
        return Result('proved', '+'.join(sorted(p.backends)) or 'syntactic', time=time.time() - t0,
                      detail=f'{p.cases} cases')
    # a solver model of the failing leaf
    env = None
    h, g, why = p.fail if p.fail else ([], goal, '?')
    try:
        r, m = smt.check(list(h) + list(lemmas) + [not_(g)], 1500, want_model=True)
        if r == 'sat':
            env = m
    except Exception:
        pass
    return Result('unproved', why, env=env, detail=tm.show(g, 6)[:400], time=time.time() - t0)
