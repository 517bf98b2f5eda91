"""Development tool (registered nowhere): behaviour-preserving rewrites of the functions a property names;
its check has to stay quiet on them.

   refactor.py PID[,PID] [--kinds a,b] [--each]      --each: one function at a time"""
import argparse, ast, copy, os, queue, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.argv, argv = sys.argv[:1] + ['-h'], sys.argv
import importlib.util
src_ = open('/verif/tools/mutate.py').read().replace('\nmain()\n', '\n')
M = {}
exec(compile(src_, 'mutate', 'exec'), M)
sys.argv = argv
W = M['W'] = '/tmp/ref'


def names_stored(fn):
    s, bad = set(), set()
    a = fn.args
    args = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    for n in ast.walk(fn):
        if n is fn:
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            bad |= {x.arg for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
            if isinstance(n, ast.FunctionDef):
                bad.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {(x.asname or x.name).split('.')[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
    return s - bad - args


def rename(fn):
    ns = names_stored(fn)
    for n in [x for st in fn.body for x in ast.walk(st)]:
        if isinstance(n, ast.Name) and n.id in ns:
            n.id += '_r'
    return bool(ns)


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def fresh(self):
        self.n += 1
        return f'_q{self.n}'

    def visit_FunctionDef(self, f):
        return f

    visit_Lambda = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef


def nm(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


class RetVar(T):
    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, (ast.Name, ast.Constant)):
            return r
        q = self.fresh()
        return [ast.Assign([nm(q, True)], r.value), ast.Return(nm(q))]


class While(T):
    def visit_For(self, f):
        self.generic_visit(f)
        if f.orelse or not (isinstance(f.iter, ast.Call) and isinstance(f.iter.func, ast.Name) and f.iter.func.id == 'range' and len(f.iter.args) <= 2 and not f.iter.keywords):
            return f
        if not isinstance(f.target, ast.Name):
            return f
        for n in ast.walk(f):
            if isinstance(n, ast.Continue):
                return f
        k, e = self.fresh(), self.fresh()
        a = f.iter.args
        lo = a[0] if len(a) == 2 else ast.Constant(0)
        return [ast.Assign([nm(k, True)], lo), ast.Assign([nm(e, True)], a[-1]),
                ast.While(ast.Compare(nm(k), [ast.Lt()], [nm(e)]), [ast.Assign([f.target], nm(k))] + f.body + [ast.AugAssign(nm(k, True), ast.Add(), ast.Constant(1))], [])]


class IfInv(T):
    def visit_If(self, i):
        self.generic_visit(i)
        if not i.orelse:
            return i
        return ast.If(ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body)

    def visit_IfExp(self, i):
        self.generic_visit(i)
        return ast.IfExp(ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body)


class Compr(T):
    def visit_Assign(self, s):
        v = s.value
        if not (isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            return s
        if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)) for n in ast.walk(v) if n is not v):
            return s
        g = v.generators[0]
        ren = {n.id: n.id + '_c' for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        first = copy.deepcopy(g.iter)
        for n in [n for y in (v.elt, g.target, *g.ifs) for n in ast.walk(y)]:
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]
        q = self.fresh()
        body = [ast.Expr(ast.Call(ast.Attribute(nm(q), 'append', ast.Load()), [v.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([nm(q, True)], ast.List([], ast.Load())), ast.For(g.target, first, body, []), ast.Assign(s.targets, nm(q))]


class Commute(T):
    def visit_BinOp(self, b):
        self.generic_visit(b)
        if isinstance(b.op, ast.Mult):
            return ast.BinOp(b.right, ast.Mult(), b.left)
        if isinstance(b.op, ast.Pow) and isinstance(b.right, ast.Constant) and b.right.value == 2 and isinstance(b.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(b.left, ast.Mult(), copy.deepcopy(b.left))
        return b

    def visit_Compare(self, c):
        self.generic_visit(c)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(c.ops) == 1 and type(c.ops[0]) in sw:
            return ast.Compare(c.comparators[0], [sw[type(c.ops[0])]()], [c.left])
        return c


class Hoist(T):
    def do(self, s, call):
        pre = []
        if isinstance(call, ast.Call) and not any(isinstance(a, ast.Starred) for a in call.args) and not isinstance(call.func, ast.Attribute) or (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and not any(isinstance(a, ast.Starred) for a in call.args)):
            for k, a in enumerate(call.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript)):
                    q = self.fresh()
                    pre.append(ast.Assign([nm(q, True)], a))
                    call.args[k] = nm(q)
                elif not isinstance(a, (ast.Name, ast.Constant, ast.Attribute)):
                    break
        elif isinstance(call, ast.BinOp):
            q = self.fresh()
            pre.append(ast.Assign([nm(q, True)], call.left))
            call.left = nm(q)
        return pre + [s]

    def visit_Assign(self, s):
        return self.do(s, s.value)

    def visit_Return(self, s):
        return self.do(s, s.value)

    def visit_Expr(self, s):
        return s


class Nest(T):
    """code after a guard that leaves goes into its else branch"""
    def block(self, b):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(b):
                return b[:k] + [ast.If(s.test, s.body, self.block(b[k + 1:]))]
        return b


def apply(kind, fn):
    before = ast.dump(fn)
    doc = fn.body[:1] if ast.get_docstring(fn) is not None else []
    if kind == 'rename':
        rename(fn)
    elif kind == 'body':
        a = fn.args
        if not (a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs):
            ar = copy.deepcopy(a)
            ar.defaults = []
            for x in ar.args:
                x.annotation = None
            inner = ast.FunctionDef('_work', ar, fn.body[len(doc):], [], None, None, [])
            inner.type_params = []
            fn.body = doc + [inner, ast.Return(ast.Call(nm('_work'), [nm(x.arg) for x in a.args], []))]
    elif kind == 'nest':
        fn.body = Nest().block(fn.body)
    else:
        t = {'ret': RetVar, 'while': While, 'ifinv': IfInv, 'compr': Compr, 'commute': Commute, 'hoist': Hoist}[kind]()
        body = []
        for s in fn.body:
            r = t.visit(s)
            body += r if isinstance(r, list) else [r]
        fn.body = body
    return ast.dump(fn) != before


KINDS = ['rename', 'ret', 'while', 'ifinv', 'compr', 'commute', 'hoist', 'body', 'nest']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pids'); ap.add_argument('--kinds', default=','.join(KINDS)); ap.add_argument('--each', action='store_true')
    ap.add_argument('--only', default=''); ap.add_argument('--workers', type=int, default=4); ap.add_argument('--limit', type=int, default=600)
    a = ap.parse_args()
    M['setup'](a.workers)
    B = os.environ.get('BASE', '/repo')
    if B != '/repo':
        for k in range(a.workers):
            subprocess.run(f'git -C {W}/r{k} fetch -q {B} HEAD && git -C {W}/r{k} reset -q --hard FETCH_HEAD', shell=True, check=True)
    free = queue.Queue()
    for k in range(a.workers):
        free.put(k)
    jobs = []
    for pid in a.pids.split(','):
        fs = [(f, q) for f, q in M['functions'](pid) if a.only in f + ':' + q]
        for kind in a.kinds.split(','):
            for g in ([[x] for x in fs] if a.each else [fs]):
                jobs.append((pid, kind, g))

    def run(j):
        pid, kind, fs = j
        texts, hit = {}, []
        for f in {f for f, _ in fs}:
            src = open(B + '/' + f).read()
            tree = ast.parse(src)
            for name, n in M['defs'](tree):
                if isinstance(n, ast.FunctionDef) and any(g == f and (name == q or name == q + '.__init__') for g, q in fs):
                    if apply(kind, n):
                        hit.append(name)
            t = ast.unparse(ast.fix_missing_locations(tree))
            compile(t, f, 'exec')
            texts[f] = t
        if not hit:
            return
        k = free.get()
        try:
            for f, t in texts.items():
                open(f'{W}/r{k}/{f}', 'w').write(t)
            r = subprocess.run(['timeout', '-k', '2', str(a.limit), '/opt/venv/bin/python', f'{W}/v{k}/check.py', pid], env=dict(os.environ, VERIF_SEED='1'), capture_output=True, text=True)
            deg = [l for l in r.stdout.splitlines() if l.startswith('DEGRADED')]
            print(pid, kind, f'{len(hit)} functions', 'rc', r.returncode, 'degraded', len(deg), (hit if a.each else ''), flush=True)
            if r.returncode:
                print('   ', '\n    '.join(l[:260] for l in r.stdout.splitlines() if l.startswith(('FAIL', 'VIOL', 'OBLI', 'REFUT'))) or r.stdout[-600:], r.stderr[-300:], flush=True)
            elif deg:
                print('   ', deg[0][:200], flush=True)
        finally:
            subprocess.run(f'git -C {W}/r{k} checkout -q -- .', shell=True)
            free.put(k)
    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run, jobs))


main()
