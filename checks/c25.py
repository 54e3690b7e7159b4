"""Sampling against the squared amplitudes of spec/Sampling.tla."""
import math
import pickle
import random

import cirq
import numpy as np
import qiskit

from checks import c17
from harness import netgen, rings
from harness.names import hushed, loud

ZF = 8192
CLASSICAL = ['CX', 'CZ', 'SWAP', 'CS', 'ISWAP', 'CCX', 'CSWAP', 'CCZ']


def circuit(rng, style, draws):
    n = rng.randint(1, 5)
    gates, K, left = [], 0, draws
    bad = rng.random() < .04 and n > 1
    for _ in range(rng.choice([1, 3, 6, 10, 14])):
        if rng.random() < .5:
            if style == 'arrays':
                g = rings.random_gate(rng, 1)
                nm = None
            else:
                nm = rng.choice(['X', 'Y', 'Z', 'S', 'Sd', 'T', 'Td', 'H', 'H', 'H', 'SX', 'SX'])
                g = c17.NAMED[nm][0]
            classical = sum(x != rings.ZERO for r in g.m for x in r) == 2
            if not classical:
                if left == 0 or K + g.k > 9:
                    continue
                left -= 1
            gates.append((nm, g, [rng.randrange(n)]))
            K += g.k
        else:
            nq = min(n, rng.choice([2, 2, 2, 3]))
            if style == 'arrays':
                g, nm = rings.random_gate(rng, nq, permutation=True), None
            else:
                nm = rng.choice([x for x in CLASSICAL if c17.NAMED[x][0].nq <= n] or ['X'])
                g = c17.NAMED[nm][0]
            gates.append((nm, g, rng.sample(range(n), g.nq)))
    if bad and style == 'arrays':
        g = rng.choice([rings.LIB2['CH'], rings.LIB1['H'].kron(rings.LIB1['X']), rings.LIB1['T'].kron(rings.LIB1['SX'])])
        gates.insert(rng.randint(0, len(gates)), (None, g, rng.sample(range(n), 2)))
        K += g.k
    used = {q for _, _, qs in gates for q in qs}
    for q in range(n):
        if q not in used:
            gates.insert(rng.randint(0, len(gates)), ('X', rings.LIB1['X'], [q]))
    return n, gates, K


class Res:
    def __init__(self, path):
        self.path, self.cost = path, len(path)


class AnyPath:
    """An optimizer which returns a few arbitrary paths."""

    def __init__(self, rng):
        self.rng = rng

    def optimize(self, tn, fuse=4, decompose_hyper_inds=True, **kw):
        assert not fuse and not decompose_hyper_inds
        return tn, [Res(netgen.random_path(self.rng, len(tn))) for _ in range(2)]


class Draws:
    """Decides the draws: numbers which note what they are compared with."""

    def __init__(self):
        self.script, self.taken, self.calls, self.weight = [], [], 0, 1.

    def start(self, script):
        self.script, self.taken, self.calls, self.weight = script, [], 0, 1.

    def below(self, p):
        """Is the number below p?"""
        p = float(p)
        if not -1e-9 <= p <= 1 + 1e-9:
            raise AssertionError(f'a probability is {p}')
        j = len(self.taken)
        b = self.script[j] if j < len(self.script) else p > .5
        self.taken.append((b, p))
        self.weight *= p if b else 1 - p
        return b


class Number(float):
    draws = None

    def __lt__(self, p):
        return self.draws.below(p)

    __le__ = __lt__

    def __gt__(self, p):
        return not self.draws.below(p)

    __ge__ = __gt__


def scripted(draws):
    class Scripted(random.Random):
        def random(self):
            draws.calls += 1
            x = Number(super().random())
            x.draws = draws
            return x
    return Scripted


def enumerate_runs(run, limit=80):
    """Distribution over the results of all runs; None if the draws cannot be told."""
    from tnco.app.circuit import sampling
    old, draws, dist = sampling.Random, Draws(), {}
    sampling.Random = scripted(draws)
    try:
        todo = [[]]
        for _ in range(limit):
            if not todo:
                return dist
            draws.start(todo.pop())
            b = run()
            if draws.calls != len(draws.taken):
                return None
            dist[b] = dist.get(b, 0.) + draws.weight
            w = 1.
            for j, (x, p) in enumerate(draws.taken):
                q = 1 - p if x else p
                if j >= len(draws.script) and w * q > 1e-9:
                    todo.append([y for y, _ in draws.taken[:j]] + [not x])
                w *= p if x else 1 - p
        return None
    finally:
        sampling.Random = old


@hushed
def case(seed):
    from tnco.app.circuit.sampling import Sampler, sample
    rng = random.Random(seed)
    style = rng.choice(['arrays', 'arrays', 'arrays', 'cirq', 'qiskit'])
    exact = rng.random() < .7
    n, gates, K = circuit(rng, style, 5 if exact else 8)
    named = style != 'arrays'
    if style == 'arrays':
        names = rng.choice([list(range(n)), [f'q{j}' for j in range(n)], [('a', -j) for j in range(n)]])
        give = [(g.array(), tuple(names[q] for q in qs)) for _, g, qs in gates]
        if rng.random() < .2:
            give = [(a.tolist(), list(q)) for a, q in give]
        elif rng.random() < .2:
            give = iter(give)
    elif style == 'cirq':
        names = rng.choice([cirq.LineQubit.range(n), [cirq.NamedQubit(f'x{9 - j}') for j in range(n)]])
        give = cirq.Circuit(c17.NAMED[nm][1].on(*(names[q] for q in qs)) for nm, _, qs in gates)
    else:
        give = qiskit.QuantumCircuit(n)
        for nm, _, qs in gates:
            getattr(give, c17.NAMED[nm][2])(*qs)
        names = give.qubits
    kw = dict(simplify=rng.random() < .7, use_matrix_commutation=rng.random() < .7, decompose_hyper_inds=rng.random() < .7, fuse=rng.choice([None, 0, 2, 4, 6]))
    want = []
    badorder = rng.random() < .04
    if badorder:
        kw['qubit_order'] = rng.choice([list(names) + ['other'], list(names)[:-1] + ['other']])
    elif rng.random() < .5:
        want = rng.sample(range(1, n + 1), n)
    num = {q: j + 1 for j, q in enumerate(names)}
    c = dict(kind='exact' if exact else 'counts', n=n, gates=[dict(q=[q + 1 for q in qs], m=g.m) for _, g, qs in gates], K=K, refused=False, badorder=badorder, probs=[],
             counts=[], samples=0, order=[], want=want, same=True, rev=style == 'qiskit', error='', how=f'{style} {kw} {want}')
    bits = lambda b, order: sum(int(b[j]) << (n - num[q]) for j, q in enumerate(order))
    order_kw = dict(qubit_order=[names[x - 1] for x in want]) if want else {}
    try:
        try:
            if rng.random() < .15:
                s = Sampler(n_jobs=1, seed=rng.randrange(1000), **loud(rng, .1))
                extra = dict(betas=(0, 1), n_steps=2)
                call = lambda circ, **k: s.sample(circ, **k)
            else:
                o = AnyPath(rng)
                extra = {}
                call = lambda circ, **k: sample(circ, o, **k, **loud(rng))
            st = call(give, return_intermediate_state_only=True, **kw, **(order_kw if rng.random() < .3 else {}), **extra)
            assert st.qubits == frozenset(names), 'qubits of the prepared state'
            for _ in range(rng.choice([0, 1, 1, 2])):
                # calls with other orders before
                call(st, n_samples=rng.randint(1, 2), qubit_order=rng.sample(list(names), n))
            if rng.random() < .1:
                st = pickle.loads(pickle.dumps(st))
            if exact:
                orders = set()

                def run():
                    r, order = call(st, n_samples=1, normalize=rng.random() < .5, **order_kw)
                    assert isinstance(r, dict) and list(r.values()) == [1] and len(next(iter(r))) == n, f'result {r}'
                    orders.add(tuple(order))
                    return bits(next(iter(r)), order)
                d = enumerate_runs(run)
                if d is None:
                    c['kind'], exact = 'counts', False
                else:
                    assert abs(sum(d.values()) - 1) < 1e-5, 'probabilities of the draws'
                    c['probs'] = [int(round(d.get(s, 0.) * 2.**K * ZF)) for s in range(2**n)]
                    assert len(orders) == 1, 'order of qubits'
                    c['order'] = [num[q] for q in orders.pop()]
            if not exact:
                m = rng.choice([1, 7, 200, 300])
                norm = rng.random() < .5
                k2 = dict(n_samples=m, **order_kw)
                if not norm or rng.random() < .3:
                    k2['normalize'] = norm
                direct = rng.random() < .3 and not isinstance(give, type(iter([])))
                if not hasattr(call, 'sampler') and extra == {}:
                    k2['seed'] = rng.randrange(10**6)
                r, order = call(give, **kw, **k2, **extra) if direct else call(st, **k2)
                if 'seed' in k2 and not direct:
                    c['same'] = call(st, **k2) == (r, order)
                c['samples'] = m
                c['order'] = [num[q] for q in order]
                counts = [0] * 2**n
                for b, v in r.items():
                    assert len(b) == n and abs(v * (m if norm else 1) - round(v * (m if norm else 1))) < 1e-6, f'result {b}: {v}'
                    counts[bits(b, order)] += round(v * (m if norm else 1))
                c['counts'] = counts
        except ValueError as e:
            c['refused'] = True
            c['how'] += f' {e}'
            return c
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    ck.model_check('MCSampling', 'SPECIFICATION Spec\nCONSTANTS N = 2 Depth = {}\nINVARIANTS Law Defined\nCHECK_DEADLOCK FALSE\n'.format(ck.size(3, 4)), workers=4)
    if not ck.quick:
        ck.model_check('MCSampling', 'SPECIFICATION Spec\nCONSTANTS N = 3 Depth = 3\nINVARIANTS Law Defined\nCHECK_DEADLOCK FALSE\n', workers=4)
    ck.load_core()
    rng = ck.rng
    n = ck.size(200, 3000)
    cases = ck.pmap(case, [f'{ck.seed}/{rng.random()}' for _ in range(n)], chunksize=6)
    ck.events += sum(len(c['gates']) for c in cases)
    for c, k, clauses in ck.validate('SampleTrace', cases):
        x = cases[c]
        key = 'qiskit-qubit-order' if clauses == ['qiskit-qubit-order'] else None
        ck.report(f'{x["kind"]} n={x["n"]} {len(x["gates"])} gates {x["how"]}: {", ".join(clauses)} {x["error"]}', x, key=key, clauses=clauses, module='SampleTrace')
    ck.sample({k: v for k, v in cases[-1].items() if k != 'gates'})
    ck.extra['cases'] = {k: sum(c['kind'] == k for c in cases) for k in ('exact', 'counts')}
    ck.assumptions += ['where the code compares its random numbers in an unforeseen way, counts of samples are compared with the distribution at 7 sigma']
