#!/opt/venv/bin/python
"""check.py PID [--tier quick|thorough]: run one property's check against /repo."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def setup_env():
    env = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', NUMBA_DISABLE_JIT='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    if any(os.environ.get(k) != v for k, v in env.items()):
        os.environ.update(env)
        os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)


if __name__ == '__main__':
    setup_env()
    sys.path.insert(0, HERE)
    sys.path.insert(0, '/repo')
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import vc  # noqa: F401
    from vc import nojit  # noqa: F401
    from vc import build
    build.use_current()
    m = importlib.import_module('props.' + a.pid)
    from vc import contract
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = contract.Run(m.check, a.tier, seed).main()
    sys.stdout.flush()
    os._exit(rc)
