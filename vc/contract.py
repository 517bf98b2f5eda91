"""Checks: contracts over the lifted real code (obligations, discharged by vc.prove) and
the executable form of the same contracts (bounded stand-in and replay)."""
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
import random
from fractions import Fraction

import numpy as np

from . import terms as tm, snp, explore, lift, prove as _prove, smt
from .terms import T, TRUE, FALSE, Unsupported, and_, or_, not_, ite, num, sym, app, L

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL_ASSUMPTIONS = [
    'machine floats and integers are treated as mathematical reals and integers in the discharged '
    'obligations; float literals are identified with the algebraic number or multiple of pi they round',
    'vc.snp is trusted to describe the numpy operations the lifted code calls (self-test: vc/selftest.py)',
    'numba compiles the python code object it is given faithfully (code objects are verified; jit is off in the checks)',
]


class StopGroup(BaseException):
    """enough obligations of a group failed"""


class Violation(Exception):
    def __init__(self, msg, data=None):
        super().__init__(msg)
        self.msg, self.data = msg, data or {}


class Ob:
    def __init__(self, name, group, res):
        self.name, self.group, self.res = name, group, res


class Check:
    def __init__(self, pid, level='proof', assumptions=(), trusted=()):
        self.pid, self.level = pid, level
        self.groups, self.runtimes = [], []
        self.assumptions = list(assumptions)
        self.trusted = list(trusted)

    def obligations(self, name, functions=(), thorough=False):
        def deco(f):
            self.groups.append((name, f, list(functions), thorough))
            return f
        return deco

    def runtime(self, name, functions=(), n=100, thorough=10):
        def deco(f):
            self.runtimes.append((name, f, list(functions), n, thorough))
            return f
        return deco


# ------------------------------------------------------------------ symbolic side
class Verifier:
    """what one obligations group uses"""

    def __init__(self, check, group, run):
        self.check, self.group, self.run_ = check, group, run
        self.lifter = None
        self.obs = []
        self.functions = {}
        self.vac = 0

    def lift(self, path, contracts=None, overrides=None, new=False):
        """path 'module:qualname' -> lifted callable or class"""
        if self.lifter is None or contracts or overrides or new:
            self.lifter = lift.Lifter(contracts, overrides)
            self.run_.lifters.append(self.lifter)
        o = lift.resolve(path) if isinstance(path, str) else path
        return self.lifter.value(o)

    def kernel(self, m):
        """a C module whose functions are executed from their source (vc.cfront)"""
        self.run_.kernels.append(m)

    # inputs
    def reals(self, name, shape=()):
        if shape == ():
            return sym(name)
        a = np.empty(shape, object)
        for i in np.ndindex(*shape):
            a[i] = sym(name + ''.join(f'_{k}' for k in i))
        return snp.ndarray.conc(a, np.dtype(float))

    def ints(self, name, shape=()):
        if shape == ():
            return sym(name, 'I')
        a = np.empty(shape, object)
        for i in np.ndindex(*shape):
            a[i] = sym(name + ''.join(f'_{k}' for k in i), 'I')
        return snp.ndarray.conc(a, np.dtype(int))

    def array(self, name, shape, sort='R'):
        """array with symbolic dimensions: element = uninterpreted function of its index"""
        dt = {'R': np.dtype(float), 'I': np.dtype(int), 'B': np.dtype(bool)}[sort]
        return snp.ndarray.symb(shape, lambda i: app(name, *[L(x) for x in i], sort=sort), dt)

    def dim(self, name):
        return sym(name, 'I')

    def run(self, thunk, hyps=(), max_paths=4000, allow_exc=False, feas_ms=1500):
        outs = explore.run(thunk, [tm.tobool(h) for h in hyps], max_paths, feas_ms)
        live = []
        for o in outs:
            if o.exc is not None and not allow_exc:
                # an exception on a feasible path is an obligation in itself: the path
                # must be infeasible
                live.append(o)
            else:
                live.append(o)
        if not outs:
            raise Unsupported('no feasible path (vacuous precondition)')
        if not allow_exc:
            ok = []
            for o in live:
                if o.exc is not None:
                    r = smt.check(list(hyps) + o.pc, 4000)
                    if r == 'unsat':
                        continue
                    if isinstance(o.exc, (AttributeError, TypeError, NotImplementedError)) or 'vc/' in _tb(o.exc)[-400:]:
                        raise Unsupported('engine: ' + repr(o.exc)[:200] + ' ' + _tb(o.exc)[-600:])
                    self._record('no exception: ' + repr(o.exc)[:100], _prove.Result('unproved', 'exception path', detail=repr(o.exc)[:200]))
                else:
                    ok.append(o)
            live = ok
        return live

    def _record(self, name, res):
        self.obs.append(Ob(f'{self.group}: {name}', self.group, res))
        bad = [o for o in self.obs if o.res.status != 'proved']
        if res.status != 'proved' and not os.environ.get('VC_ALL') and (
                len(bad) >= 6 or sum(o.res.time for o in bad) > 20):
            raise StopGroup()
        return res

    def prove(self, name, hyps, goal, **k):
        goal = tm.tobool(goal) if not isinstance(goal, bool) else (TRUE if goal else FALSE)
        k.setdefault('seed', self.run_.seed)
        res = _prove.prove(list(hyps), goal, **k)
        if res.status == 'unproved':     # a busy machine must not decide: once more with more time
            k['ms'], k['deadline'] = 4 * k.get('ms', 4000), 4 * k.get('deadline', 25)
            res = _prove.prove(list(hyps), goal, **k)
        return self._record(name, res)

    def eq_arrays(self, name, hyps, got, want, **k):
        """element-wise equality of arrays (concrete shapes)"""
        got, want = snp.asarray(got), snp.asarray(want)
        if got.shape != want.shape and not (got.is_conc and want.is_conc and got.a.size == want.a.size == 1):
            same = len(got.shape) == len(want.shape) and all(
                a is b or a == b if isinstance(a, int) and isinstance(b, int) else a is b
                for a, b in zip(got.shape, want.shape))
            if not same:
                return self._record(name, _prove.Result('refuted', 'shape', detail=f'shape {got.shape} != {want.shape}'))
        if got.is_conc:
            g, w = got.a.reshape(-1), want.a.reshape(-1)
            for i, (x, y) in enumerate(zip(g, w)):
                self.prove(f'{name}[{i}]', hyps, tm.eq(L(x), L(y)), **k)
            return
        raise Unsupported('eq_arrays of symbolic shapes: use el()')

    def fail(self, name, detail):
        return self._record(name, _prove.Result('refuted', 'structure', detail=detail))

    def ok(self, name, backend='structure'):
        return self._record(name, _prove.Result('proved', backend))

    def require(self, name, cond, detail=''):
        """a concrete (non-symbolic) obligation"""
        return self._record(name, _prove.Result('proved' if cond else 'refuted', 'evaluation', detail=detail))

    def ground(self, name, cond, what='', **data):
        """an obligation without variables, decided by running the real code: a failure is a failing input"""
        r = self._record(name, _prove.Result('proved' if cond else 'refuted', 'ground evaluation', detail=str(what)[:300]))
        if not cond and self.run_.ground_failure is None:
            self.run_.ground_failure = Violation(f'{self.group}: {name} {what}'[:600], data)
        return r

    def vacuity(self, hyps):
        """the precondition is satisfiable"""
        r = smt.check([tm.tobool(h) for h in hyps], 4000)
        self._record('precondition satisfiable', _prove.Result('proved' if r != 'unsat' else 'unproved', 'z3', detail=r))


def _alarm(*a):
    raise Unsupported('time budget of the group exhausted')


def _tb(ex):
    return ''.join(traceback.format_exception(ex))


def finite(t):
    """well-definedness conditions of a term: (guards, condition) pairs"""
    out = []
    seen = set()

    def go(x, guards):
        key = (x.id, guards)
        if key in seen or not isinstance(x, T):
            return
        seen.add(key)
        if len(seen) > 200000:
            raise Unsupported('too many guarded subterms')
        if x.op == 'ite':
            c, a, b = x.args
            go(c, guards)
            go(a, guards + (c,))
            go(b, guards + (not_(c),))
            return
        if x.op == '/':
            out.append((guards, not_(tm.eq(x.args[1], num(0)))))
        elif x.op == 'sqrt':
            out.append((guards, tm.le(num(0), x.args[0])))
        elif x.op in ('acos', 'asin'):
            out.append((guards, and_(tm.le(num(-1), x.args[0]), tm.le(x.args[0], num(1)))))
        elif x.op == 'log':
            out.append((guards, tm.lt(num(0), x.args[0])))
        for c in tm.children(x):
            go(c, guards)
    go(t, ())
    return out


# ------------------------------------------------------------------ runtime side
class Runtime:
    """an executable contract on the real code"""

    def __init__(self, run, name, n, seed):
        self.run_, self.name, self.n, self.seed = run, name, n, seed
        self.count = 0
        self.rng = np.random.default_rng(seed)
        self.pr = random.Random(seed)

    def cases(self, n=None, scale=True):
        n = self.n if n is None else n
        if scale:
            n = int(n * self.run_.mult)
        for k in range(n):
            if self.run_.jobs or self.run_.queue:
                self.run_.poll(0)
            if time.time() > self.run_.rt_deadline:
                return
            yield k

    def expect(self, cond, msg, /, finding=None, **data):
        self.count += 1
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if not cond:
            if finding is not None and self.run_.known(finding, msg, data):
                return False
            raise Violation(f'{self.name}: {msg}', data)
        return True

    def close(self, got, want, msg, /, rtol=1e-9, atol=1e-11, finding=None, **data):
        self.count += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            try:
                np.broadcast_shapes(got.shape, want.shape)
                shape_ok = got.size == want.size or want.size == 1
            except ValueError:
                shape_ok = False
            if not shape_ok:
                raise Violation(f'{self.name}: {msg}: shape {got.shape} != {want.shape}', data)
        try:
            ok = np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        except TypeError:
            ok = bool(np.all(got == want))
        if not ok:
            if finding is not None and self.run_.known(finding, msg, data):
                return False
            with np.errstate(all='ignore'):
                d = None
                try:
                    d = float(np.nanmax(np.abs(got - want)))
                except Exception:
                    pass
            raise Violation(f'{self.name}: {msg} (max difference {d})', dict(data, got=got, want=want))
        return True

    def raises(self, exc, f, msg, **data):
        self.count += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise Violation(f'{self.name}: {msg}: raised {e!r}', data)
        raise Violation(f'{self.name}: {msg}: no exception', data)


def _js(o):
    if isinstance(o, np.ndarray):
        return o.tolist() if o.size < 3000 else {'shape': list(o.shape), 'head': o.ravel()[:50].tolist()}
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, Fraction):
        return str(o)
    if isinstance(o, (set, frozenset, range)):
        return list(o)
    if isinstance(o, bytes):
        return repr(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    return repr(o)[:2000]


# ------------------------------------------------------------------ a run
class Run:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.lifters, self.kernels, self.lifted = [], [], {}
        self.queue, self.jobs, self.done, self.order = [], {}, {}, []
        self.mult = 1.0
        self.rt_deadline = time.time() + 10 ** 9
        self.known_hits = {}
        self.ground_failure = None
        self.sym_deadline = time.time() + (200 if tier == 'quick' else 3000)
        try:
            with open(os.path.join(VERIF, 'known_findings.json')) as f:
                self.known_list = {(e['property'], e['key']): e for e in json.load(f)['findings']}
        except FileNotFoundError:
            self.known_list = {}

    def known(self, key, msg, data):
        e = self.known_list.get((self.check.pid, key))
        if e is None:
            return False
        self.known_hits[key] = e['what']
        return True

    # ---------------------------------------------------------------- phases
    def start(self):
        """one forked process per group of obligations, a few at a time"""
        if os.environ.get('VC_RT'):
            return
        for k, (name, f, funcs, thorough) in enumerate(self.check.groups):
            if thorough and self.tier != 'thorough':
                continue
            if os.environ.get('VC_GROUP') and os.environ['VC_GROUP'] not in name:
                continue
            self.queue.append((k, name, f, funcs))
        self.order = [(k, name, funcs) for k, name, _, funcs in self.queue]
        self.launch()

    def launch(self):
        width = max(2, min(8, os.cpu_count() or 2))
        while self.queue and len(self.jobs) < width:
            k, name, f, funcs = self.queue.pop(0)
            left = self.sym_deadline - time.time()
            if left < 5:
                self.done[k] = ([], [(name, 'time budget of the check exhausted', funcs)], {}, {}, None)
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = pickle.dumps(self.group(name, f, funcs, left))
                    with os.fdopen(w, 'wb') as g:
                        g.write(out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            self.jobs[r] = (k, pid, name, funcs, [], time.time())

    def poll(self, wait):
        self.launch()
        if not self.jobs:
            return False
        limit = 400 if self.tier == 'quick' else 2000
        for r in select.select(list(self.jobs), [], [], wait)[0]:
            k, pid, name, funcs, buf, t0 = self.jobs[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del self.jobs[r]
            try:
                self.done[k] = pickle.loads(b''.join(buf))
            except Exception:
                self.done[k] = ([], [(name, 'the process of the group ended without a result', funcs)], {}, {}, None)
        for r, (k, pid, name, funcs, buf, t0) in list(self.jobs.items()):
            if time.time() - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del self.jobs[r]
                self.done[k] = ([], [(name, 'time budget of the group exhausted', funcs)], {}, {}, None)
        self.launch()
        return bool(self.jobs)

    def collect(self):
        obs, degraded = [], []
        if os.environ.get('VC_RT'):
            return obs, degraded
        while self.poll(5):
            pass
        for k, name, funcs in self.order:
            o, d, lifted, st, gf = self.done[k]
            obs += o
            degraded += d
            self.lifted.update(lifted)
            for key, x in st.items():
                smt.STATS[key] = smt.STATS.get(key, 0) + x
            if gf is not None and self.ground_failure is None:
                self.ground_failure = Violation(*gf)
        return obs, degraded

    def group(self, name, f, funcs, left):
        """the obligations of one group (in its own process)"""
        v = Verifier(self.check, name, self)
        obs, degraded = [], []
        t0 = time.time()
        st0 = dict(smt.STATS)
        explore._ENGINES.clear()
        # processor time, so that other processes do not shorten it
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, min(left, 60 if self.tier == 'quick' else 900))
        try:
            try:
                f(v)
            except StopGroup:
                pass
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            if not v.obs:
                raise Unsupported('group produced no obligation')
            # an unproved (not refuted) obligation counts only when the group ran to its end
            obs += v.obs
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f'{x.filename}:{x.lineno}' for x in reversed(tb) if '/repo/' in x.filename), '')
            degraded.append((name, f'{e} {where}'.strip()[:900], funcs))
            obs += [o for o in v.obs if o.res.status == 'refuted']
            if os.environ.get('VC_DEBUG'):
                traceback.print_exc()
        except RecursionError as e:
            degraded.append((name, 'recursion limit', funcs))
            if os.environ.get('VC_DEBUG'):
                print('\n'.join(traceback.format_exc().splitlines()[-400:-380]))
        except Exception as e:
            # the contract itself no longer fits the code (signature, attribute ...)
            degraded.append((name, 'contract does not apply: ' + repr(e)[:200] + ' ' + _tb(e)[-500:], funcs))
            obs += [o for o in v.obs if o.res.status == 'refuted']
            if os.environ.get('VC_DEBUG'):
                traceback.print_exc()
        if os.environ.get('VC_DEBUG'):
            print(f'  [{time.time() - t0:6.2f}s] {name}: {len(v.obs)} obligations')
            for o in v.obs:
                if o.res.status != 'proved':
                    print('     ', o.name, o.res.status, o.res.backend, o.res.detail[:300], str(o.res.env)[:500])
        for o in obs:
            if o.res.env is not None:
                o.res.env = json.loads(json.dumps({str(k): x for k, x in dict(o.res.env).items()}, default=_js))
            o.res.detail = str(o.res.detail)
        lifted = {}
        for lf in self.lifters:
            for q, code in lf.lifted.items():
                lifted[q] = f'{code.co_filename.replace("/repo/", "")}:{code.co_firstlineno}'
        for m in self.kernels:
            for q in m.used:
                lifted[f'{m.name}:{q}'] = m.where(q)
        gf = self.ground_failure
        if gf is not None:
            gf = (gf.msg, json.loads(json.dumps(gf.data, default=_js)))
        return obs, degraded, lifted, {k: x - st0.get(k, 0) for k, x in smt.STATS.items()}, gf

    def bounded(self, mult=1.0, limit=None, seed=None):
        """-> (Violation or None, evaluations, per-contract counts)"""
        self.mult = mult
        self.rt_deadline = time.time() + (limit or 10 ** 9)
        total, per = 0, []
        viol = None
        for name, f, funcs, n, th in self.check.runtimes:
            if os.environ.get('VC_GROUP') and os.environ['VC_GROUP'] not in name:
                continue
            m = n if self.tier != 'thorough' else n * th
            t = Runtime(self, name, m, self.seed if seed is None else seed)
            t0 = time.time()
            try:
                with np.errstate(all='ignore'):
                    f(t)
            except Violation as v:
                viol = v
                v.name = name
            except Unsupported as e:
                raise
            except Exception as e:
                viol = Violation(f'{name}: the code raised {e!r} on valid input', {'traceback': _tb(e)[-3000:]})
            total += t.count
            per.append({'contract': name, 'functions': funcs, 'evaluations': t.count})
            if os.environ.get('VC_DEBUG'):
                print(f'  [{time.time() - t0:6.2f}s] runtime {name}: {t.count} evaluations')
            if viol is not None:
                viol.data.setdefault('contract', name)
                break
        return viol, total, per

    # ---------------------------------------------------------------- main
    def main(self):
        t0 = time.time()
        pid = self.check.pid
        self.start()
        viol, evals, per = self.bounded()
        obs, degraded = self.collect()
        failed = [o for o in obs if o.res.status != 'proved']
        # a known finding may name an obligation
        rest = []
        for o in failed:
            key = 'obligation:' + o.name
            if not self.known(key, '', {}):
                rest.append(o)
        failed = rest
        if viol is None and self.ground_failure is not None and any(o.res.backend == 'ground evaluation' for o in failed):
            viol = self.ground_failure
        if viol is None and (failed or degraded):
            # the contracts that failed or no longer apply, evaluated on the real code
            from . import concrete
            names = {o.group for o in failed} | {d[0] for d in degraded}
            hit = concrete.search(self.check, [(n, f) for n, f, _, _ in self.check.groups if n in names], 60)
            if hit is not None:
                viol = Violation(*hit)
                viol.name = hit[0]
        if viol is None and failed:
            v2, e2, _ = self.bounded(mult=6.0, limit=90, seed=self.seed + 1000)
            viol, evals = v2, evals + e2
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rc, viols = 0, []
        if viol is not None or failed:
            rc = 1
            path = os.path.join(VERIF, 'replays', f'{pid}.json')
            rec = {
                'property': pid,
                'failed_obligations': [
                    {'obligation': o.name, 'status': o.res.status, 'back_end': o.res.backend,
                     'detail': o.res.detail, 'countermodel': o.res.env}
                    for o in failed[:40]],
                'failing_input': None if viol is None else {'what': viol.msg, 'data': viol.data},
                'rerun': f'/opt/venv/bin/python {VERIF}/check.py {pid}',
                'seed': self.seed,
            }
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1, default=_js)
            for o in failed[:10]:
                print(f'FAILED-OBLIGATION {o.name}: {o.res.status} ({o.res.backend}) {o.res.detail[:300]}')
                if o.res.env:
                    print('   countermodel', str(o.res.env)[:400])
            if viol is not None:
                print('FAILING-INPUT', viol.msg[:600])
            tail = '' if viol is not None else ' no-failing-input-found'
            line = f'VIOLATION property={pid} replay={path}{tail}'
            viols.append({'what': viol.msg if viol is not None else failed[0].name, 'replay': path})
            print(line)
        for k, w in self.known_hits.items():
            print(f'KNOWN-FINDING: property={pid} {w}')
        for name, why, funcs in degraded:
            print(f'DEGRADED {name}: {why[:300]} (decided by the bounded contract only)')
        self.evidence(obs, failed, degraded, per, evals, viols, time.time() - t0)
        n_ok = sum(o.res.status == 'proved' for o in obs)
        print(f'{pid}: {n_ok}/{len(obs)} obligations discharged, {evals} bounded evaluations, '
              f'{time.time() - t0:.1f}s')
        return rc

    def evidence(self, obs, failed, degraded, per, evals, viols, wall):
        lifted = self.lifted
        be = {}
        for o in obs:
            b = be.setdefault(o.res.backend or '?', {'obligations': 0, 'seconds': 0.0})
            b['obligations'] += 1
            b['seconds'] = round(b['seconds'] + o.res.time, 4)
        ev = {
            'property': self.check.pid,
            'tier': self.tier,
            'seed': self.seed,
            'level': self.check.level,
            'coverage': {
                'obligations': len(obs),
                'discharged': sum(o.res.status == 'proved' for o in obs),
                'checker_cmd': f'/opt/venv/bin/python {VERIF}/check.py {self.check.pid} --tier {self.tier}',
                'trusted_base': ['vc (verification-condition generator executing the real code objects)',
                                 'z3 5.3', 'CPython 3.12'] + self.check.trusted,
                'evaluations': evals,
                'functions_executed_symbolically': lifted,
                'obligations_by_back_end': be,
                'z3_queries': smt.STATS['queries'], 'z3_seconds': round(smt.STATS['time'], 3),
                'bounded_contracts': per,
                'degraded_groups': [{'group': n, 'reason': w, 'functions': f} for n, w, f in degraded],
                'obligation_names': [o.name for o in obs][:600],
            },
            'assumptions': REAL_ASSUMPTIONS + self.check.assumptions,
            'wall_s': round(wall, 3),
            'violations': viols,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.check.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=_js)
