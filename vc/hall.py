"""Independent oracle: symmetry operations of a Hall symbol (S. R. Hall 1981 / ITB A1.4),
exact integer rotation parts and translations in 24ths."""
import itertools
import numpy as np

T24 = 24
LATT = {
    'P': [(0, 0, 0)], 'A': [(0, 0, 0), (0, 12, 12)], 'B': [(0, 0, 0), (12, 0, 12)], 'C': [(0, 0, 0), (12, 12, 0)],
    'I': [(0, 0, 0), (12, 12, 12)], 'F': [(0, 0, 0), (0, 12, 12), (12, 0, 12), (12, 12, 0)],
    'R': [(0, 0, 0), (16, 8, 8), (8, 16, 16)], 'H': [(0, 0, 0), (16, 8, 0), (8, 16, 0)],
}
TR = {'a': (12, 0, 0), 'b': (0, 12, 0), 'c': (0, 0, 12), 'n': (12, 12, 12), 'u': (6, 0, 0), 'v': (0, 6, 0),
      'w': (0, 0, 6), 'd': (6, 6, 6)}
I3 = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


def _axis(M, ax):
    """permute a matrix given about z to x or y"""
    M = np.array(M)
    if ax == 'z':
        return M
    p = {'x': [2, 0, 1], 'y': [1, 2, 0]}[ax]      # new axis k plays role p[k] of the z frame
    return M[np.ix_(p, p)]


ROTZ = {1: [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 2: [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
        3: [[0, -1, 0], [1, -1, 0], [0, 0, 1]], 4: [[0, -1, 0], [1, 0, 0], [0, 0, 1]],
        6: [[1, -1, 0], [1, 0, 0], [0, 0, 1]]}
PRIME = {("'", 'z'): [[0, -1, 0], [-1, 0, 0], [0, 0, -1]], ("'", 'x'): [[-1, 0, 0], [0, 0, -1], [0, -1, 0]],
         ("'", 'y'): [[0, 0, -1], [0, -1, 0], [-1, 0, 0]], ('"', 'z'): [[0, 1, 0], [1, 0, 0], [0, 0, -1]],
         ('"', 'x'): [[-1, 0, 0], [0, 0, 1], [0, 1, 0]], ('"', 'y'): [[0, 0, 1], [0, -1, 0], [1, 0, 0]]}
STAR = [[0, 0, 1], [1, 0, 0], [0, 1, 0]]


def generators(symbol):
    symbol = symbol.strip()
    shift = None
    if '(' in symbol:
        symbol, rest = symbol.split('(')
        rest = rest.rstrip(') ')
        shift = rest
    tok = symbol.split()
    lat = tok[0]
    inv = lat.startswith('-')
    lat = lat.lstrip('-')
    gens = [(np.array(I3), np.array(t)) for t in LATT[lat]]
    if inv:
        gens.append((-np.array(I3), np.zeros(3, int)))
    prevn, prevax = None, None
    for i, s in enumerate(tok[1:]):
        neg = s.startswith('-')
        s = s.lstrip('-')
        n = int(s[0])
        s = s[1:]
        ax, prime, tr, screw = None, None, np.zeros(3, int), 0
        for ch in s:
            if ch in 'xyz':
                ax = ch
            elif ch in '\'"*':
                prime = ch
            elif ch.isdigit():
                screw = int(ch)
            else:
                tr = tr + np.array(TR[ch])
        if ax is None and prime is None:
            if i == 0:
                ax = 'z'
            elif i == 1 and n == 2:
                if prevn in (2, 4):
                    ax = 'x'
                else:
                    prime = "'"
            elif i == 1 and n == 1:
                ax = 'z'
            elif i == 2 and n == 3 or n == 3:
                prime = '*'
            else:
                ax = 'z'
        if prime == '*':
            M = np.array(STAR)
        elif prime:
            M = np.array(PRIME[prime, ax or prevax or 'z'])
        else:
            M = _axis(ROTZ[n], ax)
            if screw:
                v = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}[ax]
                tr = tr + np.array(v) * (24 * screw // n)
        if neg:
            M = -M
        gens.append((M, tr))
        if prime != '*':
            prevn, prevax = n, (ax or prevax)
    if shift is not None:
        gens = change(gens, shift)
    return gens


def change(gens, shift):
    if ',' in shift:
        rows = shift.split(',')
        V = np.zeros((3, 3))
        v = np.zeros(3)
        for i, r in enumerate(rows):
            for j, c in enumerate('xyz'):
                def ev(x, y, z):
                    return eval(r, {'__builtins__': {}}, {'x': x, 'y': y, 'z': z})
                V[i, j] = ev(*np.eye(3)[j]) - ev(0, 0, 0)
            v[i] = ev(0, 0, 0) * 24
    else:
        V = np.eye(3)
        v = np.array([int(x) for x in shift.split()]) * 2.0    # twelfths
    Vi = np.linalg.inv(V)
    out = []
    for M, t in gens:
        W = V @ M @ Vi
        w = V @ t + v - W @ v
        out.append((np.rint(W).astype(int), np.rint(w).astype(int)))
    return out


def group(symbol):
    """frozenset of (9 ints, 3 ints mod 24)"""
    gens = generators(symbol)
    key = lambda M, t: (tuple(M.ravel()), tuple(int(x) % T24 for x in t))
    seen = {key(np.array(I3), np.zeros(3, int))}
    todo = [(np.array(I3), np.zeros(3, int))]
    while todo:
        M, t = todo.pop()
        for G, g in gens:
            N, u = G @ M, (G @ t + g) % T24
            k = key(N, u)
            if k not in seen:
                seen.add(k)
                todo.append((N, u))
                if len(seen) > 192:
                    raise ValueError(symbol)
    return frozenset(seen)


def absent(ops, hkl):
    """mask of systematically absent reflections"""
    hkl = np.asarray(hkl)
    bad = np.zeros(len(hkl), bool)
    for W, w in ops:
        W = np.array(W).reshape(3, 3)
        same = (hkl @ W == hkl).all(1)
        bad |= same & ((hkl @ np.array(w)) % T24 != 0)
    return bad
