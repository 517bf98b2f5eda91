"""Development tool (registered nowhere): small changes of the functions a property names, run against
its check in scratch copies; prints the changes no check noticed.

   mutate.py PID [--n 60] [--rt] [--seed 0] [--only substring]"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

W = '/tmp/mut'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&'}


def setup(n):
    os.makedirs(W, exist_ok=True)
    for k in range(n):
        if not os.path.exists(f'{W}/r{k}'):
            subprocess.run(['cp', '-a', '/repo', f'{W}/r{k}'], check=True)
        subprocess.run(f'git -C {W}/r{k} checkout -q -- . && git -C {W}/r{k} fetch -q /repo HEAD && git -C {W}/r{k} reset -q --hard FETCH_HEAD', shell=True, check=True)
        v = f'{W}/v{k}'
        shutil.rmtree(v, ignore_errors=True)
        os.makedirs(v)
        subprocess.run(f'cp -a /verif/vc /verif/props /verif/check.py /verif/known_findings.json {v}/ && ln -s /verif/.cache {v}/.cache && sed -i "s#sys.path.insert(0, \'/repo\')#sys.path.insert(0, \'{W}/r{k}\')#" {v}/check.py', shell=True, check=True)


def seg(src, lines, node):
    a = sum(len(x) for x in lines[:node.lineno - 1]) + len(lines[node.lineno - 1].encode()[:node.col_offset].decode())
    b = sum(len(x) for x in lines[:node.end_lineno - 1]) + len(lines[node.end_lineno - 1].encode()[:node.end_col_offset].decode())
    return a, b


def mutants(src, fn):
    lines = src.splitlines(True)
    out = []

    def rep(node, new, what):
        a, b = seg(src, lines, node)
        out.append((node.lineno, what, a, b, new))
    doc = ast.get_docstring(fn) is not None
    body = fn.body[1:] if doc else fn.body
    skip = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[0] in ('logger', 'warnings', 'print', 'log')):
                skip |= {id(x) for x in ast.walk(n)}
    for st in body:
        for n in ast.walk(st):
            if id(n) in skip or not hasattr(n, 'lineno'):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.comparators[0])
                rep(n, f'({l} {CMP[type(n.ops[0])]} {r})', 'cmp')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.right)
                rep(n, f'(({l}) {BIN[type(n.op)]} ({r}))', 'bin')
            elif isinstance(n, ast.BoolOp):
                vs = [ast.get_source_segment(src, x) for x in n.values]
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                rep(n, '(' + op.join(f'({x})' for x in vs) + ')', 'bool')
                for k in range(len(vs)):
                    rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(f'({x})' for j, x in enumerate(vs) if j != k) + ')', 'dropcond')
            elif isinstance(n, ast.UnaryOp):
                if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                    rep(n, f'({ast.get_source_segment(src, n.operand)})', 'unary')
            elif isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    rep(n, str(not n.value), 'const')
                elif isinstance(n.value, (int, float)):
                    rep(n, f'({n.value} + 1)' if n.value in (0, 1, 2) else f'({n.value} * 1.01)' if isinstance(n.value, float) else f'({n.value} - 1)', 'const')
                    if isinstance(n.value, int) and n.value > 0:
                        rep(n, f'{n.value - 1}', 'const')
            elif isinstance(n, ast.IfExp):
                rep(n, f'({ast.get_source_segment(src, n.body)})', 'ifexp')
                rep(n, f'({ast.get_source_segment(src, n.orelse)})', 'ifexp')
            elif isinstance(n, (ast.If, ast.While)):
                if isinstance(n, ast.If):
                    rep(n.test, 'True', 'iftrue')
                rep(n.test, 'False', 'iffalse')
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
                rep(n, 'pass', 'drop')
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'flatten', 'ravel', 'squeeze', 'astype', 'abs', 'conj', 'transpose') :
                    rep(n, f'({ast.get_source_segment(src, n.func.value)})', 'unwrap')
                elif len(n.args) == 1 and not n.keywords and ast.unparse(n.func) in ('np.abs', 'abs', 'np.copy', 'np.unique', 'np.sort', 'np.radians', 'np.degrees', 'list', 'np.mod', 'copy.deepcopy', 'deepcopy', 'np.array', 'np.asarray', 'int', 'round', 'np.round'):
                    rep(n, f'({ast.get_source_segment(src, n.args[0])})', 'unwrap')
                if n.keywords and not n.args == []:
                    for kw in n.keywords[-1:]:
                        a = ast.get_source_segment(src, n)
                        k = ast.get_source_segment(src, kw)
                        if k and a.count(k) == 1:
                            rep(n, re.sub(r',\s*' + re.escape(k), '', a), 'dropkw')
            elif isinstance(n, ast.Attribute) and n.attr == 'T':
                rep(n, f'({ast.get_source_segment(src, n.value)})', 'untr')
            elif isinstance(n, ast.Break):
                rep(n, 'pass', 'break')
            elif isinstance(n, ast.Continue):
                rep(n, 'pass', 'continue')
    return out


def functions(pid):
    """-> {(file, qualified name)}"""
    ev = json.load(open(f'/verif/evidence/{pid}.json'))
    out = set()
    for q, at in ev['coverage'].get('functions_executed_symbolically', {}).items():
        f = at.split(':')[0].split('/tmp/rw/')[-1]
        mod = f[:-3].replace('/', '.').replace('.__init__', '')
        if f.endswith('.py') and q.startswith(mod):
            out.add((f, q[len(mod) + 1:]))
    for q in set(re.findall(r'hexrd[\w.]*:[\w.]+', json.dumps(ev))):
        mod, name = q.split(':')
        f = mod.replace('.', '/') + '.py'
        if not os.path.exists('/repo/' + f):
            f = mod.replace('.', '/') + '/__init__.py'
        if os.path.exists('/repo/' + f):
            out.add((f, name))
    return sorted(out)


def defs(tree, pre=''):
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, ast.FunctionDef):
            yield pre + n.name, n
        elif isinstance(n, ast.ClassDef):
            if pre + n.name:
                yield pre + n.name, n
            yield from defs(n, pre + n.name + '.')
        elif isinstance(n, (ast.If, ast.Try)):
            yield from defs(n, pre)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--n', type=int, default=64); ap.add_argument('--rt', action='store_true')
    ap.add_argument('--seed', type=int, default=0); ap.add_argument('--only', default=''); ap.add_argument('--limit', type=int, default=150)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--also', default='', help='other properties whose checks are asked about a survivor')
    a = ap.parse_args()
    setup(a.workers)
    cand = []
    for f, q in functions(a.pid):
        if a.only not in f + ':' + q:
            continue
        src = open('/repo/' + f).read()
        for name, n in defs(ast.parse(src)):
            if isinstance(n, ast.FunctionDef) and (name == q or name == q + '.__init__'):
                for m in mutants(src, n):
                    cand.append((f, f + ':' + q) + m)
    uniq = {}
    for c in cand:
        uniq[(c[0], c[4], c[5], c[6])] = c
    cand = list(uniq.values())
    random.Random(a.seed).shuffle(cand)
    cand = cand[:a.n]
    free = queue.Queue()
    for k in range(a.workers):
        free.put(k)
    res = {'caught': 0, 'crash': 0, 'timeout': 0}
    surv = []

    def run(c):
        f, q, ln, what, x, y, new = c
        k = free.get()
        p = f'{W}/r{k}/{f}'
        src = open('/repo/' + f).read()
        try:
            t = src[:x] + new + src[y:]
            try:
                compile(t, f, 'exec')
            except SyntaxError:
                return
            open(p, 'w').write(t)
            env = dict(os.environ, VERIF_SEED='1')
            for rt in (1, 0):
                if rt == 0 and a.rt:
                    break
                e = dict(env, VC_RT='1') if rt else env
                r = subprocess.run(['timeout', '-k', '2', str(a.limit), '/opt/venv/bin/python', f'{W}/v{k}/check.py', a.pid], env=e, capture_output=True, text=True)
                if r.returncode:
                    break
            for other in [x for x in a.also.split(',') if x and x != a.pid]:
                if r.returncode == 0:
                    r = subprocess.run(['timeout', '-k', '2', str(a.limit), '/opt/venv/bin/python', f'{W}/v{k}/check.py', other], env=dict(env, VC_RT='1'), capture_output=True, text=True)
            if r.returncode == 1:
                res['caught'] += 1
            elif r.returncode == 124 or r.returncode == 137:
                res['timeout'] += 1
            elif r.returncode:
                res['crash'] += 1
                surv.append((f, ln, q, what, 'CRASH ' + r.stderr[-200:], new))
            else:
                surv.append((f, ln, q, what, src[x:y], new))
        finally:
            open(p, 'w').write(src)
            free.put(k)
    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run, cand))
    print(a.pid, res, 'survived', len(surv), 'of', len(cand))
    for s in sorted(surv, key=lambda s: (s[0], s[1])):
        o = ' '.join(s[4].split())[:110]
        n = ' '.join(s[5].split())[:110]
        print(f'  {s[0].split("hexrd/")[-1]}:{s[1]} {s[2].split(":")[1]} [{s[3]}] {o}  ->  {n}')


main()
