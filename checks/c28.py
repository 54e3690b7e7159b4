"""Commutation and equality of gates against spec/Gates.tla."""
import random

import numpy as np

from harness import rings

NAMES = [lambda j: j, lambda j: f'q{j}', lambda j: ('a', -j), lambda j: [None, 0, 'x', (1, 2), -1.5, frozenset(), 'y', 7][j]]


def tweak(rng, g):
    """Change one entry's phase."""
    m = [list(r) for r in g.m]
    spots = [(i, j) for i, r in enumerate(m) for j, x in enumerate(r) if x != rings.ZERO]
    i, j = rng.choice(spots)
    m[i][j] = rings.mul(rings.unit(rng.choice([1, 2, 4, 4, 6])), m[i][j])
    return rings.Gate(m, g.k)


def pair(rng):
    """Two gates with their qubits (from 1)."""
    nq = rng.choice([1, 1, 2, 2, 2, 3])
    pool = rng.sample(range(8), rng.choice([nq, nq, 5]))
    q = rng.sample(pool, nq)
    g = rings.random_gate(rng, nq)
    how = rng.random()
    if how < .2:
        h, r = g, list(q)
    elif how < .3:
        h, r = g.adj(), list(q)
    elif how < .45:
        h, r = tweak(rng, g), list(q)
    elif how < .55:
        h, r = rings.random_gate(rng, nq), list(q)
    elif how < .65:
        # the same two factors on one side
        h, r = rings.diag([rng.choice([0, 0, 1, 2, 4, 6]) for _ in range(2**nq)]), list(q)
    else:
        k = rng.choice([1, 1, 2, 2, 3])
        r = []
        while not set(r) & set(q) and (not r or rng.random() < .8):
            r = rng.sample(sorted(set(q) | set(pool) if len(set(q) | set(pool)) >= k else range(8)), k)
        h = rings.random_gate(rng, k, permutation=rng.random() < .5)
    if len(set(q) | set(r)) > 4:
        return pair(rng)
    if rng.random() < .4:
        o = list(range(len(r)))
        rng.shuffle(o)
        h, r = h.permuted(o), [r[j] for j in o]
    if rng.random() < .3:
        h = h.phase(rng.randrange(8))
    return (g, q), (h, r)


def spoil(rng, m, q):
    """A description which is no gate."""
    how = rng.choice(['twice', 'few', 'many', 'none', 'rows', 'cols', 'flat'])
    m, q = [list(r) for r in m], list(q)
    if how == 'twice' and len(q) > 1:
        q[1] = q[0]
    elif how == 'few' and len(q) > 1:
        q = q[:-1]
    elif how == 'none':
        q, m = [], [[rings.ONE]]
    elif how == 'rows':
        m = m[:-1] if rng.random() < .5 else m + m
    elif how == 'cols':
        m = [r[:-1] if len(m) < 3 else r + r for r in m]
    else:
        q = q + [x for x in range(8) if x not in q][:1]
    return m, q


def case(seed):
    from tnco.utils.circuit import commute, same
    rng = random.Random(seed)
    (g, q), (h, r) = pair(rng)
    gates = [(g.m, list(q), g.k), (h.m, list(r), h.k)]
    if rng.random() < .08:
        j = rng.randrange(2)
        gates[j] = (*spoil(rng, gates[j][0], gates[j][1]), gates[j][2])
    name = rng.choice(NAMES)
    give = []
    for m, qs, k in gates:
        a = np.array([[rings.num(x) for x in row] for row in m]) / 2**(k / 2)
        if not np.any(a.imag) and rng.random() < .7:
            a = a.real
            if np.array_equal(a, np.round(a)) and rng.random() < .5:
                a = a.astype(int)
        if rng.random() < .2:
            a = a.tolist()
        give.append((a, rng.choice([list, tuple, iter])(list(map(name, qs)))))
    c = dict(a=dict(m=gates[0][0], q=[x + 1 for x in gates[0][1]]), b=dict(m=gates[1][0], q=[x + 1 for x in gates[1][1]]), refused={}, got={}, error='', ev=[])
    give = [(a, tuple(x)) for a, x in give]
    arg = lambda: [(a, rng.choice([list, tuple, iter])(x)) if rng.random() < .3 else (a, x) for a, x in give]
    kw = dict(atol=rng.choice([1e-8, 1e-6])) if rng.random() < .3 else {}
    try:
        for f, call in (('commute', lambda: commute(*arg(), **kw)), ('overlap', lambda: commute(*arg(), use_matrix_commutation=False, **kw)), ('same', lambda: same(*arg(), **kw))):
            c['refused'][f], c['got'][f] = False, False
            try:
                v = call()
                assert isinstance(v, (bool, np.bool_)), f'{f} gives {v!r}'
                c['got'][f] = bool(v)
            except ValueError:
                c['refused'][f] = True
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    ck.model_check('MCGates', 'SPECIFICATION Spec\nCONSTANT Qubits = {}\nINVARIANTS Symmetric Itself Transitive\nCHECK_DEADLOCK FALSE\n'.format(2), workers=4)
    if not ck.quick:
        ck.model_check('MCGates', 'SPECIFICATION Spec\nCONSTANT Qubits = 3\nINVARIANTS Symmetric Itself Transitive\nCHECK_DEADLOCK FALSE\n', workers=6, timeout=3000)
    ck.load_core()
    cases = ck.pmap(case, [f'{ck.seed}/{ck.rng.random()}' for _ in range(ck.size(3600, 20000))], chunksize=50)
    ck.events += 3 * len(cases)
    ck.check_cases('GateTrace', cases, lambda c, k: f'{c["a"]} {c["b"]} {c["got"]} {c["refused"]} {c["error"]}')
    good = [c for c in cases if c['got'] and not any(c['refused'].values())]
    ck.extra['cases'] = {f: dict(yes=sum(c['got'][f] for c in good), no=sum(not c['got'][f] for c in good)) for f in ('commute', 'overlap', 'same')}
    ck.sample(cases[0])
