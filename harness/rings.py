"""Exact gates over Z[w] (w = exp(i pi/4)), scaled by powers of sqrt(2)."""
import cmath
import itertools as its
import math

import numpy as np

ZERO, ONE = (0, 0, 0, 0), (1, 0, 0, 0)
W = cmath.exp(1j * math.pi / 4)
S2 = (0, 1, 0, -1)


def unit(k):
    k %= 8
    s = 1 if k < 4 else -1
    return tuple(s if j == k % 4 else 0 for j in range(4))


def mul(x, y):
    r = [0] * 4
    for i in range(4):
        for j in range(4):
            s = x[i] * y[j]
            if i + j < 4:
                r[i + j] += s
            else:
                r[i + j - 4] -= s
    return tuple(r)


def add(x, y):
    return tuple(a + b for a, b in zip(x, y))


def conj(x):
    return (x[0], -x[3], -x[2], -x[1])


def num(x):
    return x[0] + x[1] * W + x[2] * 1j + x[3] * W**3


class Gate:
    """Matrix m (entries in Z[w]) over sqrt(2)**k."""

    def __init__(self, m, k=0, name=None):
        self.m, self.k, self.name = [list(map(tuple, r)) for r in m], k, name
        self.nq = int(math.log2(len(m)))

    def array(self):
        return np.array([[num(x) for x in r] for r in self.m]) / math.sqrt(2)**self.k

    def __matmul__(self, o):
        n = len(self.m)
        m = [[ZERO] * n for _ in range(n)]
        for i, j in its.product(range(n), repeat=2):
            for t in range(n):
                m[i][j] = add(m[i][j], mul(self.m[i][t], o.m[t][j]))
        return Gate(m, self.k + o.k).reduced()

    def reduced(self):
        """Divide by 2 as long as possible."""
        m, k = self.m, self.k
        while k >= 2 and all(v % 2 == 0 for r in m for x in r for v in x):
            m, k = [[tuple(v // 2 for v in x) for x in r] for r in m], k - 2
        return Gate(m, k, self.name)

    def adj(self):
        n = len(self.m)
        return Gate([[conj(self.m[j][i]) for j in range(n)] for i in range(n)], self.k)

    def phase(self, k):
        return Gate([[mul(unit(k), x) for x in r] for r in self.m], self.k)

    def kron(self, o):
        n, p = len(self.m), len(o.m)
        return Gate([[mul(self.m[i // p][j // p], o.m[i % p][j % p]) for j in range(n * p)] for i in range(n * p)], self.k + o.k)

    def permuted(self, order):
        """The same gate with its qubits listed in another order: new qubit j is old qubit order[j]."""
        n = self.nq

        def old(s):
            b = [(s >> (n - 1 - j)) & 1 for j in range(n)]
            o = [0] * n
            for j, q in enumerate(order):
                o[q] = b[j]
            return int(''.join(map(str, o)), 2)
        N = 2**n
        return Gate([[self.m[old(i)][old(j)] for j in range(N)] for i in range(N)], self.k)


def perm(p, ph=None, name=None):
    n = len(p)
    ph = ph or [0] * n
    return Gate([[unit(ph[j]) if p[j] == i else ZERO for j in range(n)] for i in range(n)], 0, name)


def diag(ph, name=None):
    return perm(list(range(len(ph))), ph, name)


I1 = diag([0, 0], 'I')
LIB1 = dict(X=perm([1, 0], None, 'X'), Y=perm([1, 0], [2, 6], 'Y'), Z=diag([0, 4], 'Z'), S=diag([0, 2], 'S'), T=diag([0, 1], 'T'),
            H=Gate([[ONE, ONE], [ONE, unit(4)]], 1, 'H'), I=I1,
            SX=Gate([[(1, 0, 1, 0), (1, 0, -1, 0)], [(1, 0, -1, 0), (1, 0, 1, 0)]], 2, 'SX'))


def controlled(g, name=None):
    n = len(g.m)
    one = ONE
    for _ in range(g.k):
        one = mul(one, S2)
    m = [[ZERO] * (2 * n) for _ in range(2 * n)]
    for i in range(n):
        m[i][i] = one
        for j in range(n):
            m[n + i][n + j] = g.m[i][j]
    return Gate(m, g.k, name)


CX = controlled(LIB1['X'], 'CX')
SWAP = perm([0, 2, 1, 3], None, 'SWAP')
LIB2 = dict(CX=CX, CZ=controlled(LIB1['Z'], 'CZ'), CS=controlled(LIB1['S'], 'CS'), SWAP=SWAP, ISWAP=perm([0, 2, 1, 3], [0, 2, 2, 0], 'ISWAP'),
            CH=controlled(LIB1['H'], 'CH'))
LIB3 = dict(CCX=controlled(CX, 'CCX'), CSWAP=controlled(SWAP, 'CSWAP'), CCZ=controlled(LIB2['CZ'], 'CCZ'))


def random_gate(rng, nq, permutation=False):
    """A random gate over nq qubits."""
    r = rng.random()
    if nq == 1:
        if permutation:
            return rng.choice([LIB1['X'], LIB1['Y'], LIB1['Z'], LIB1['S'], LIB1['T'], LIB1['I']]).phase(rng.choice([0, 0, 1, 2, 5]))
        g = rng.choice(list(LIB1.values()))
        if r < .3:
            g = g @ rng.choice(list(LIB1.values()))
        return g.phase(rng.choice([0, 0, 0, 1, 2, 4]))
    lib = LIB2 if nq == 2 else LIB3 if nq == 3 else {}
    lib = [g for g in lib.values() if not permutation or g.k == 0]
    if r < .5 and lib:
        g = rng.choice(lib)
    elif r < .75 or permutation:
        p = list(range(2**nq))
        if rng.random() < .6:
            rng.shuffle(p)
        g = perm(p, [rng.choice([0, 0, 1, 2, 4, 6]) for _ in p])
    elif r < .85:
        g = diag([rng.choice([0, 0, 1, 2, 4, 6]) for _ in range(2**nq)])
    else:
        g = random_gate(rng, 1)
        for _ in range(nq - 1):
            g = g.kron(random_gate(rng, 1))
        if rng.random() < .5 and lib:
            g = rng.choice(lib) @ g
    if rng.random() < .4:
        o = list(range(nq))
        rng.shuffle(o)
        g = g.permuted(o)
    return g


def states():
    """One-qubit vectors: (token or None, ring vector, exponent)."""
    v = {'0': ([ONE, ZERO], 0), '1': ([ZERO, ONE], 0), '+': ([ONE, ONE], 1), '-': ([ONE, unit(4)], 1)}
    out = [(t, x, k) for t, (x, k) in v.items()]
    out += [(None, [ONE, unit(2)], 1), (None, [unit(1), unit(4)], 1), (None, [ONE, unit(1)], 1), (None, [unit(3), ZERO], 0),
            (None, [ONE, unit(6)], 1)]
    return out


def evaluate(arrays, ts, open_):
    """Value of a tensor network (indices summed one after the other); axes in the order of open_."""
    T = [(np.asarray(a, dtype=complex), list(x)) for a, x in zip(arrays, ts)]
    left = {x for _, xs in T for x in xs} - set(open_)

    def join(group, keep):
        allx = list(dict.fromkeys(x for _, xs in group for x in xs))
        a, xs = group[0]
        for b, ys in group[1:]:
            zs = list(dict.fromkeys(xs + ys))
            lab = {x: k for k, x in enumerate(zs)}
            a = np.einsum(a, [lab[x] for x in xs], b, [lab[x] for x in ys], [lab[x] for x in zs])
            xs = zs
        zs = [x for x in allx if x in keep]
        lab = {x: k for k, x in enumerate(allx)}
        return np.einsum(a, [lab[x] for x in xs], [lab[x] for x in zs]), zs
    while left:
        x = min(left, key=lambda y: (len({z for _, xs in T if y in xs for z in xs}), repr(y)))
        left.discard(x)
        g = [t for t in T if x in t[1]]
        T = [t for t in T if x not in t[1]]
        T.append(join(g, {z for _, xs in g for z in xs} - {x}))
    a, xs = join(T, set(open_)) if T else (np.array(1. + 0j), [])
    missing = [x for x in open_ if x not in xs]
    assert not missing, f'no tensor has the open indices {missing}'
    return np.transpose(a, [xs.index(x) for x in open_])
