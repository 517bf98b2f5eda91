"""Development tool: which groups of obligations can be evaluated on the real code (vc/concrete.py); writes
vc/concrete.json.  concretize.py [PID ...]"""
import os, sys, json
env = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', NUMBA_DISABLE_JIT='1', OMP_NUM_THREADS='1')
if any(os.environ.get(k) != v for k, v in env.items()):
    os.environ.update(env); os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, '/verif'); sys.path.insert(0, '/repo')
import warnings, logging, importlib, glob, contextlib, io
warnings.simplefilter('ignore'); logging.disable(logging.CRITICAL)
import vc
from vc import nojit, build, contract, concrete
build.use_current()
pids = sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob('/verif/props/[A-Z][0-9][0-9].py'))
from concurrent.futures import ProcessPoolExecutor


def one(pid):
    m = importlib.import_module('props.' + pid)
    good, log = [], []
    for name, f, funcs, th in m.check.groups:
        res = []
        for s in range(concrete.SEEDS):
            with contextlib.redirect_stdout(io.StringIO()):
                res.append(concrete.once(m.check, f, name, s, 10))
            if res[-1][0] == 'found' or (s == 60 and not any(r[0] == 'held' for r in res)):
                break
        fnd = [r for r in res if r[0] == 'found']
        held = sum(r[0] == 'held' for r in res)
        if not fnd and held >= 3:
            good.append(name)
            log.append(f'  + {name[:80]} ({held} of {len(res)}, {res[-1][1] if res[-1][0] == "held" else ""})')
        else:
            log.append(f'  - {name[:80]}: ' + (f'FOUND {fnd[0][1]} {str(fnd[0][2])[-600:]}' if fnd else str(res[-1][1])[-int(os.environ.get("LEN", 160)):]))
    return pid, good, log


if __name__ == '__main__':
    tab = concrete.table()
    with ProcessPoolExecutor(8) as ex:
        for pid, good, log in ex.map(one, pids):
            print(pid, f'{len(good)} of {len(log)}')
            print('\n'.join(log), flush=True)
            tab[pid] = good
    json.dump(tab, open('/verif/vc/concrete.json', 'w'), indent=1)
