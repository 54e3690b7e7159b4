"""Random networks, components and judged trees against spec/Generate.tla."""
import random

from harness import netgen, optrun
from harness.names import hushed, loud, name_map


@hushed
def request(seed):
    from tnco.testing.utils import generate_random_tensors as gen
    rng = random.Random(seed)
    k = rng.choice([1, 2, 2, 2, 3, 3, 4, 5])
    n = max(1, rng.choice([k, k + 1, rng.randint(1, 12)]) - (rng.random() < .1))
    o = rng.choice([0, 0, 1, 2, 3, rng.randint(0, 8)])
    m = max(0, n + 1 - k) + o + rng.choice([0, 0, 1, 3, 10, -1])
    cc = rng.choice([1, 1, 2, 3])
    c = dict(kind='request', n=n, m=m, k=k, o=o, cc=cc, refused=False, sure=False, ts=[], out=[], again=True, error='', ev=[])
    kw = dict(n_output_inds=o, n_cc=cc, seed=rng.randrange(10**6))
    if k != 2 or rng.random() < .5:
        kw['k'] = k
    if rng.random() < .6:
        kw['randomize_names'] = rng.random() < .5
    try:
        try:
            ts, out = gen(n, m, **kw, **loud(rng))
        except ValueError:
            # distinct tensors are sure to be found when they are sure to have distinct indices
            c.update(refused=True, sure=k == 2 and n == 3 and o == 0 and m == 2)
            return c
        again = gen(n, m, **kw, **loud(rng))
        c['again'] = [list(x) for x in ts] == [list(x) for x in again[0]] and out == again[1]
        inds = list(dict.fromkeys([x for t in ts for x in t] + list(out)))
        if kw.get('randomize_names', True) is False:
            assert all(isinstance(x, int) and 0 <= x < m * cc for x in inds), 'no plain numbers'
        num = {x: j + 1 for j, x in enumerate(inds)}
        c.update(ts=[[num[x] for x in t] for t in ts], out=sorted(num[x] for x in out))
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


@hushed
def components(seed):
    from tnco.testing.utils import get_connected_components as gcc
    rng = random.Random(seed)
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    m = rng.choice([1, 2, n + 1, 2 * n + 2, 20])
    p = rng.choice([0, 1, 1, 2, 3])
    ts = [rng.sample(range(1, m + 1), min(m, rng.randint(0 if rng.random() < .2 else min(1, p), max(1, p)))) for _ in range(n)]
    if rng.random() < .2 and n > 3:
        # chains which only close at the end
        ts = [[j, j + 1] for j in rng.sample(range(1, n), n - 1)]
        ts.pop(rng.randrange(len(ts)))
    names, _ = name_map(rng, range(1, max([m, n]) + 1))
    c = dict(kind='components', ts=ts, got=[], error='', ev=[])
    try:
        got = gcc(rng.choice([list, tuple, iter])([rng.choice([list, tuple])(names[x] for x in t) for t in ts]), **loud(rng))
        c['got'] = [[v + 1 for v in K] for K in got]
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def names(seed):
    from tnco.testing.utils import generate_random_inds as gen
    rng = random.Random(seed)
    n = rng.choice([0, 1, 2, 10, 300])
    c = dict(kind='names', n=n, names=[], error='', ev=[])
    try:
        s = rng.randrange(1000)
        got = gen(n, seed=s)
        assert got == gen(n, seed=s), 'not repeatable'
        ids = {}
        c['names'] = [ids.setdefault(x, len(ids)) for x in got]
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def tree(seed):
    import pickle
    from tnco.ctree import ContractionTree
    from tnco.testing.utils import is_valid_contraction_tree as judge
    rng = random.Random(seed)
    n = rng.choice([2, 2, 3, 3, 4, 5, 6])
    ts, d, out = netgen.gen_net(rng, n, dims=rng.choice([(2,), (2, 3)]), p_hyper=rng.choice([0, .4]), p_out=.3, p_dangle=0, max_inds=rng.choice([n, n + 4]), max_log2=None)
    order = sorted(d)
    mp, back = name_map(rng, order)
    ids = {x: j + 1 for j, x in enumerate(order)}
    path, cur = [], n
    while cur > 1:
        path.append(tuple(rng.sample(range(cur), 2)))
        cur -= 1
    N = lambda xs: [mp[x] for x in xs]
    tsn, dn = [N(t) for t in ts], {mp[x]: v for x, v in d.items()}
    c = dict(kind='tree', t=[[], [], []], xs=[], dims=[d[x] for x in order], given=[], ts=[], d=[], out=[], hyper=[], got=False, untouched=True,
             error='', ev=[])
    try:
        ct = ContractionTree(path, tsn, dn, output_inds=N(out))
        t = optrun.tree_of(ct)
        I = lambda xs: sorted(ids[back[x]] for x in xs)
        c.update(t=[t['par'], t['c1'], t['c2']], xs=[I(xs) for xs in ct.inds[:]])
        before = pickle.dumps(ct)
        meets = {x: sum(x in t for t in ts) - 1 + (x in out) for x in order}
        what = [w for w in ('ts', 'dims', 'out', 'hyper', 'share') if rng.random() < .6]
        wrong = rng.choice(what) if what and rng.random() < .6 else ''
        ts2, d2, out2, h2 = [list(t) for t in ts], dict(d), list(out), dict(meets)
        x = rng.choice(order)
        if wrong == 'ts':
            v = rng.randrange(n)
            if rng.random() < .5 and n > 1:
                u = rng.randrange(n)
                ts2[u], ts2[v] = ts2[v], ts2[u]
            elif x in ts2[v]:
                ts2[v].remove(x)
            else:
                ts2[v].append(x)
        elif wrong == 'dims':
            d2[x] += 1
        elif wrong == 'out':
            out2 = [y for y in out2 if y != x] if x in out2 else out2 + [x]
        elif wrong == 'hyper':
            h2[x] += rng.choice([-1, 1])
        kw = {}
        if 'ts' in what:
            kw['ts_inds'] = [rng.sample(N(t), len(t)) for t in ts2]
        if 'dims' in what:
            kw['dims'] = {mp[y]: v for y, v in d2.items()}
            if len(set(d2.values())) == 1 and rng.random() < .5:
                kw['dims'] = d2[x]
        if 'out' in what:
            kw['output_inds'] = rng.choice([list, frozenset])(N(out2))
        if 'hyper' in what:
            kw['hyper_count'] = {mp[y]: v for y, v in h2.items()}
        if 'share' in what:
            kw['check_shared_inds'] = True
        elif rng.random() < .3:
            kw['check_shared_inds'] = False
        c.update(given=what, ts=[sorted(ids[y] for y in t) for t in ts2], d=[d2[y] for y in order], out=sorted(ids[y] for y in out2),
                 hyper=[h2[y] for y in order])
        got = judge(ct, **kw)
        assert isinstance(got, bool), f'the answer is {got!r}'
        c.update(got=got, untouched=pickle.dumps(ct) == before)
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    cfg = 'SPECIFICATION Spec\nCONSTANTS N = {} M = {} K = {} O = {}\nINVARIANTS Shaped Enough\nCHECK_DEADLOCK FALSE\n'
    for c in [(3, 3, 2, 1), (4, 4, 3, 2), (2, 2, 2, 1), (2, 3, 1, 1)] + ck.size([], [(4, 6, 3, 3), (4, 6, 2, 2), (5, 6, 3, 2), (4, 5, 4, 3)]):
        ck.model_check('MCGenerate', cfg.format(*c), workers=4)
    ck.load_core()
    rng = ck.rng
    seeds = lambda a, b: [f'{ck.seed}/{rng.random()}' for _ in range(ck.size(3 * a, b))]
    cases = ck.pmap(request, seeds(600, 8000), chunksize=20)
    cases += ck.pmap(components, seeds(600, 8000), chunksize=20)
    cases += ck.pmap(tree, seeds(800, 10000), chunksize=20)
    cases += ck.pmap(names, seeds(20, 200), chunksize=20)
    ck.events += len(cases)
    ck.check_cases('GenerateTrace', cases, lambda c, k: f'{c}',
                   key=lambda c, k, cl: 'two-tensors' if c['kind'] == 'tree' and len(c['ts']) == 2
                   and cl == ['error'] and c['error'] == 'AssertionError: ' else None)
    ck.extra['cases'] = dict(networks=sum(c['kind'] == 'request' and not c['refused'] for c in cases),
                             refused=sum(c['kind'] == 'request' and c['refused'] for c in cases),
                             trees={str(a): sum(c['kind'] == 'tree' and c['got'] is a for c in cases) for a in (True, False)})
    ck.sample(cases[0])
    ck.assumptions += ['components are numbered by the tensors which have indices, as documented in the code']
