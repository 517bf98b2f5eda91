"""numba without the compiler: jit is disabled by NUMBA_DISABLE_JIT, vectorize here."""
import numpy as np
import numba


class PyVec:
    def __init__(self, f, dt):
        self.py_func = f
        self.__name__ = f.__name__
        self.__module__ = f.__module__
        self.v = np.vectorize(f, otypes=[dt] if dt is not None else None)
        self.dt = dt

    def __call__(self, *a, **k):
        r = self.v(*a, **k)
        return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r


def vectorize(*a, **k):
    def deco(f):
        dt = None
        if a and isinstance(a[0], (list, tuple)):
            s = str(a[0][0]) if not isinstance(a[0][0], str) else a[0][0]
            dt = complex if 'complex' in (s.split('->')[-1] if '->' in s else s.split('(')[0]) else float
        return PyVec(f, dt)
    if a and callable(a[0]) and not isinstance(a[0], (list, tuple)):
        return PyVec(a[0], None)
    return deco


numba.vectorize = vectorize
