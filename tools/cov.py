"""Development tool: lines of the functions a property names that its runtime contracts never execute.  cov.py PID"""
import os, sys, json
HERE = '/verif'
env = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', NUMBA_DISABLE_JIT='1', OMP_NUM_THREADS='1', VC_RT='1')
if any(os.environ.get(k) != v for k, v in env.items()):
    os.environ.update(env); os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, HERE); sys.path.insert(0, '/repo')
import warnings, logging, importlib, io, contextlib
warnings.simplefilter('ignore'); logging.disable(logging.CRITICAL)
seen = {}
M = sys.monitoring
M.use_tool_id(3, 'cov')
def line(code, ln):
    if code.co_filename.startswith('/repo/'):
        seen.setdefault(code, set()).add(ln)
    return M.DISABLE
M.register_callback(3, M.events.LINE, line)
M.set_events(3, M.events.LINE)
import vc
from vc import nojit, build, contract
build.use_current()
pid = sys.argv[1]
m = importlib.import_module('props.' + pid)
ev = open(f'/verif/evidence/{pid}.json').read()
with contextlib.redirect_stdout(io.StringIO()) as o:
    r = contract.Run(m.check, 'quick', 1)
    r.evidence = lambda *a, **k: None
    rc = r.main()
sys.path.insert(0, '/verif/tools')
import ast, re
import importlib.util
src = open('/verif/tools/mutate.py').read()
ns = {}
exec(src[:src.index('def main()')], ns)
lines = {}
for c, s in seen.items():
    lines.setdefault(c.co_filename, set()).update(s)
tot = miss = 0
for f, q in ns['functions'](pid):
    for name, n in ns['defs'](ast.parse(open('/repo/' + f).read())):
        if not isinstance(n, ast.FunctionDef) or name not in (q, q + '.__init__'):
            continue
        body = n.body[1:] if ast.get_docstring(n) is not None else n.body
        want = set()
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.stmt) and not isinstance(x, (ast.Raise, ast.Global, ast.Nonlocal)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                    want.add(x.lineno)
        got = lines.get('/repo/' + f, set())
        u = sorted(x for x in want if x not in got)
        tot += len(want); miss += len(u)
        if u:
            print(f'  {f[6:]}:{name} {len(u)}/{len(want)}: {u[:40]}')
print(pid, f'lines {tot} not executed {miss}', o.getvalue().strip().splitlines()[-1:])
