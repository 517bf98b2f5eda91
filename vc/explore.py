"""Path exploration by re-execution: every symbolic branch taken by the real code
object is recorded, and the function is executed again for each feasible decision
sequence.  Loops over symbolic ranges are executed once per path for a generic
iteration (see snp.SymRange)."""
import contextlib

from . import terms as tm
from . import smt
from .terms import T, TRUE, FALSE, Unsupported, and_, not_


class PathLimit(Unsupported):
    pass


class Infeasible(BaseException):
    pass


class Frame:
    """one decision tree"""

    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.pc = []
        self.forced = None

    def start(self):
        self.pos = 0
        self.pc = []

    def advance(self):
        """move to the next unexplored path; False when exhausted"""
        while self.prefix and self.prefix[-1][1]:
            self.prefix.pop()
        if not self.prefix:
            return False
        d, _ = self.prefix[-1]
        self.prefix[-1] = (not d, True)
        return True


class Engine:
    def __init__(self, hyps=(), max_paths=4000, feas_ms=1500):
        self.hyps = list(hyps)
        self.frames = []
        self.max_paths = max_paths
        self.feas_ms = feas_ms
        self.paths = 0
        self.wd = []            # well-definedness conditions seen on this path
        self.log = []           # heap write log
        self.poison = None
        self.cache = {}
        self.binders = []       # active generic loop indices

    def pc(self):
        out = []
        for f in self.frames:
            out += f.pc
        return out

    def feasible(self, cond):
        key = (tuple(self.pc()), cond)
        r = self.cache.get(key)
        if r is None:
            r = smt.check(self.hyps + self.pc() + [cond], self.feas_ms) != 'unsat'
            self.cache[key] = r
        return r


_ENGINES = []


def engine():
    if not _ENGINES:
        raise Unsupported('symbolic branch outside of a verification run')
    return _ENGINES[-1]


def active():
    return bool(_ENGINES)


def branch(cond):
    e = engine()
    if not e.frames:
        raise Unsupported('symbolic branch outside of a path')
    # already implied syntactically?
    for p in e.pc():
        if p is cond:
            return True
        if p is not_(cond):
            return False
    f = e.frames[-1]
    if f.pos < len(f.prefix):
        d, _ = f.prefix[f.pos]
        f.pos += 1
        f.pc.append(cond if d else not_(cond))
        return d
    t = e.feasible(cond)
    n = e.feasible(not_(cond)) if t else True
    if t and n:
        f.prefix.append((True, False))
        d = True
    elif t:
        f.prefix.append((True, True))
        d = True
    else:
        f.prefix.append((False, True))
        d = False
    f.pos += 1
    f.pc.append(cond if d else not_(cond))
    return d


def assume(cond):
    """ghost assumption on the current path (used by modular callee contracts)"""
    e = engine()
    e.frames[-1].pc.append(tm.tobool(cond))


class Outcome:
    def __init__(self, pc, value=None, exc=None, state=None):
        self.pc, self.value, self.exc, self.state = pc, value, exc, state


def run(thunk, hyps=(), max_paths=4000, feas_ms=1500):
    """Execute thunk over all feasible paths -> list of Outcome"""
    e = Engine(hyps, max_paths, feas_ms)
    _ENGINES.append(e)
    out = []
    try:
        f = Frame()
        e.frames.append(f)
        while True:
            f.start()
            e.poison = None
            exc = val = None
            try:
                val = thunk()
            except (Unsupported, RecursionError, KeyboardInterrupt):
                raise
            except Infeasible:
                exc = None
                val = Infeasible
            except Exception as ex:  # an exception the code under test raises
                exc = ex
            if e.poison:
                raise Unsupported(e.poison)
            if len(e.frames) != 1:
                raise Unsupported('loop left early')
            if val is not Infeasible:
                out.append(Outcome(list(f.pc), val, exc))
            e.paths += 1
            if e.paths > max_paths:
                raise PathLimit(f'more than {max_paths} paths')
            if not f.advance():
                break
    finally:
        _ENGINES.pop()
    return out
