import cirq
import math

import numpy as np
import qiskit

from harness import rings
from harness.names import hushed, loud

ZF = 8192


def gen(rng, style):
    """n, gates [(Gate, qubits)], with few enough factors 1/sqrt(2)."""
    n = rng.randint(1, 5)
    gates, K = [], 0
    m = rng.choice([1, 2, 4, 8, 14, 20])
    lim = 9
    while len(gates) < m:
        r = rng.random()
        if gates and r < .3:
            # invert an earlier gate, possibly listing its qubits in another order
            g, qs = rng.choice(gates[-4:])
            g = g.adj()
            if len(qs) > 1 and rng.random() < .5 and style == 'arrays':
                o = list(range(len(qs)))
                rng.shuffle(o)
                g, qs = g.permuted(o), [qs[j] for j in o]
            g = g.phase(rng.choice([0, 0, 0, 1, 4])) if style == 'arrays' else g
        else:
            nq = min(n, rng.choice([1, 1, 1, 2, 2, 2, 3]))
            g, qs = rings.random_gate(rng, nq), rng.sample(range(n), nq)
        if K + g.k > lim:
            g, qs = rng.choice([rings.LIB1['X'], rings.LIB1['S'], rings.LIB1['T']]), [rng.randrange(n)]
        K += g.k
        gates.append((g, qs))
    # all qubits occur
    used = {q for _, qs in gates for q in qs}
    for q in range(n):
        if q not in used:
            gates.append((rng.choice([rings.LIB1['X'], rings.LIB1['T'], rings.LIB1['I']]), [q]))
    rng.random() < .5 and rng.shuffle(gates)
    return n, gates, K


NAMED = {'X': (rings.LIB1['X'], cirq.X, 'x'), 'Y': (rings.LIB1['Y'], cirq.Y, 'y'), 'Z': (rings.LIB1['Z'], cirq.Z, 'z'),
         'S': (rings.LIB1['S'], cirq.S, 's'), 'Sd': (rings.LIB1['S'].adj(), cirq.S**-1, 'sdg'), 'T': (rings.LIB1['T'], cirq.T, 't'),
         'Td': (rings.LIB1['T'].adj(), cirq.T**-1, 'tdg'), 'H': (rings.LIB1['H'], cirq.H, 'h'), 'SX': (rings.LIB1['SX'], cirq.X**.5, 'sx'),
         'CX': (rings.CX, cirq.CX, 'cx'), 'CZ': (rings.LIB2['CZ'], cirq.CZ, 'cz'), 'SWAP': (rings.SWAP, cirq.SWAP, 'swap'),
         'CS': (rings.LIB2['CS'], cirq.CZ**.5, 'cs'), 'ISWAP': (rings.LIB2['ISWAP'], cirq.ISWAP, 'iswap'),
         'CCX': (rings.LIB3['CCX'], cirq.CCX, 'ccx'), 'CSWAP': (rings.LIB3['CSWAP'], cirq.CSWAP, 'cswap'),
         'CCZ': (rings.LIB3['CCZ'], cirq.CCZ, 'ccz')}


def gen_named(rng, limit=9):
    n = rng.randint(1, 5)
    gates, K = [], 0
    for _ in range(rng.choice([2, 5, 10, 16])):
        while True:
            nm = rng.choice(list(NAMED))
            g = NAMED[nm][0]
            if g.nq <= n and K + g.k <= limit:
                break
        K += g.k
        gates.append((nm, rng.sample(range(n), g.nq)))
    used = {q for _, qs in gates for q in qs}
    gates += [('X', [q]) for q in range(n) if q not in used]
    return n, gates, K


def pick_states(rng, names, K, budget):
    """Per qubit: ring vector or open; and the argument for load."""
    n = len(names)
    st = rings.states()
    r = rng.random()
    if r < .15 and budget >= n:
        return [[]] * n, None, K
    if r < .4:
        t, v, k = rng.choice(st[:4])
        if K + n * k <= 13:
            return [v] * n, t, K + n * k
    vec, arg = [], {}
    for j in range(n):
        if rng.random() < .3 and sum(v == [] for v in vec) < budget:
            vec.append([])
            continue
        t, v, k = rng.choice(st)
        if K + k > 13:
            t, v, k = rng.choice(st[:2])
        K += k
        vec.append(v)
        arg[names[j]] = t if t is not None and rng.random() < .7 else (
            np.array([rings.num(x) for x in v]) / math.sqrt(2)**k if rng.random() < .7 else
            [complex(rings.num(x)) / math.sqrt(2)**k for x in v])
    if rng.random() < .1:
        arg['not-a-qubit'] = '0'
    return vec, arg, K


def options(rng):
    return dict(simplify=rng.random() < .7, use_matrix_commutation=rng.random() < .7, decompose_hyper_inds=rng.random() < .7,
                fuse=rng.choice([None, 0, 1, 2, 3, 4, 4.5, 6, 8]), seed=rng.randrange(1000), **loud(rng))


@hushed
def case(rng, style):
    from tnco.utils.circuit import load
    if style == 'arrays':
        n, gates, K = gen(rng, style)
        names = rng.choice([list(range(n)), [f'q{j}' for j in range(n)], [('a', -j) for j in range(n)]])
        dt = rng.choice([None, None, 'complex128', 'complex64'])
        give = [(g.array(), tuple(names[q] for q in qs)) for g, qs in gates]
        if dt is None and all(np.allclose(a.imag, 0) for a, _ in give):
            give = [(a.real, q) for a, q in give]
        if rng.random() < .2:
            give = [(a.tolist(), list(q)) for a, q in give]
        spec = [(g, qs) for g, qs in gates]
        kw = dict(dtype=dt) if dt or rng.random() < .3 else {}
    else:
        n, named, K = gen_named(rng)
        spec = [(NAMED[nm][0], qs) for nm, qs in named]
        dt = rng.choice([None, None, 'complex128', 'complex64'])
        kw = dict(dtype=dt) if dt else {}
        if style == 'cirq':
            names = rng.choice([cirq.LineQubit.range(n), [cirq.NamedQubit(f'x{9 - j}') for j in range(n)],
                                [cirq.GridQubit(j % 2, j) for j in range(n)]])
            ops = [NAMED[nm][1].on(*(names[q] for q in qs)) for nm, qs in named]
            if rng.random() < .3:
                ops.append(cirq.measure(*names))
            give = cirq.Circuit(ops)
            if rng.random() < .1:
                free, ms = set(range(n)), []
                for (nm, qs), o in zip(named, ops):
                    if set(qs) <= free:
                        free -= set(qs)
                        ms.append(((NAMED[nm][0], qs), o))
                if not free:
                    spec, give = [a for a, _ in ms], cirq.Moment([o for _, o in ms])
                    K = sum(g.k for g, _ in spec)
        else:
            give = qiskit.QuantumCircuit(n)
            for nm, qs in named:
                getattr(give, NAMED[nm][2])(*qs)
            names = give.qubits
    cost = len(spec) * 2**n * 3
    budget = max(0, min(n, int(math.log2(max(1, 6000 // cost)))))
    ini, ai, K = pick_states(rng, names, K, budget)
    fin, af, K = pick_states(rng, names, K, n)
    kw.update(options(rng))
    if ai != '0' or rng.random() < .5:
        kw['initial_state'] = ai
    if af != '0' or rng.random() < .5:
        kw['final_state'] = af
    bad = rng.random() < .03
    if bad:
        kw[rng.choice(['initial_state', 'final_state'])] = {names[0]: rng.choice(['2', [1, 1], [1, 0, 0], [.5, .5]])}
    c = dict(kind=style, n=n, gates=[dict(q=[q + 1 for q in qs], m=g.m) for g, qs in spec], ini=ini, fin=fin, K=K, badstate=bad,
             type=kw.get('dtype') or '', types=[], refused=False, outs=[[], []], values=[], norm=[], p=1, rev=style == 'qiskit', error='', options=str(kw))
    try:
        try:
            arrays, ts, outs = load(give, **kw)
        except ValueError as e:
            if not bad:
                raise
            c['refused'] = True
            return c
        if bad:
            return c
        c['types'] = sorted({str(a.dtype) for a in arrays})
        num = {q: j + 1 for j, q in enumerate(names)}
        c['outs'] = [sorted(num[q] for q, t in outs if t == x) for x in 'if']
        assert len(outs) == len(c['outs'][0]) + len(c['outs'][1]), 'tags of open indices'
        order = [(names[j], 'i') for j in range(n) if ini[j] == []] + [(names[j], 'f') for j in range(n) if fin[j] == []]
        v = rings.evaluate(arrays, ts, order).ravel()
        p = int(np.argmax(np.abs(v) > .999 * np.max(np.abs(v))))
        s = 2.**K * ZF
        c.update(p=p + 1, values=[[int(round((x * v[p].conjugate()).real * s)), int(round((x * v[p].conjugate()).imag * s))] for x in v],
                 norm=[int(round(abs(x)**2 * s)) for x in v])
        assert all(abs(x) < 2**31 for y in c['values'] for x in y), 'amplitudes too large'
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    ck.model_check('MCCircuit', 'SPECIFICATION Spec\nCONSTANTS Qubits = 2 Depth = 3\nINVARIANTS Same\nCHECK_DEADLOCK FALSE\n', workers=4)
    if not ck.quick:
        ck.model_check('MCCircuit', 'SPECIFICATION Spec\nCONSTANTS Qubits = 1 Depth = 6\nINVARIANTS Same\nCHECK_DEADLOCK FALSE\n', workers=4)
    rng = ck.rng
    cases = [case(rng, 'arrays') for _ in range(ck.size(700, 5000))]
    cases += [case(rng, 'cirq') for _ in range(ck.size(160, 1000))]
    cases += [case(rng, 'qiskit') for _ in range(ck.size(80, 600))]
    rng.shuffle(cases)
    ck.events += sum(len(c['gates']) for c in cases)
    for c, k, clauses in ck.validate('CircuitTrace', cases):
        x = cases[c]
        key = 'qiskit-qubit-order' if clauses == ['qiskit-qubit-order'] else None
        ck.report(f'{x["kind"]} n={x["n"]} {len(x["gates"])} gates {x["options"]}: {", ".join(clauses)} {x["error"]}', x, key=key,
                  clauses=clauses, module='CircuitTrace')
    ck.sample({k: v for k, v in cases[-1].items() if k != 'gates'})
