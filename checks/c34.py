"""Programs over the whole interface: nothing changes but the receiver (spec/Frame.tla)."""
import copy
import hashlib
import pickle
import random

import numpy as np

from harness import netgen, rings
from harness.names import hushed, name_map


def snap(x, deep=0):
    """Everything which can be observed of a value, as a text."""
    if isinstance(x, np.ndarray):
        return f'array({x.shape} {x.dtype} {hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest()})'
    if isinstance(x, (list, tuple)):
        return f'{type(x).__name__}[{", ".join(map(snap, x))}]'
    if isinstance(x, dict):
        return f'{{{", ".join(f"{snap(k)}: {snap(v)}" for k, v in x.items())}}}'
    if isinstance(x, (set, frozenset)):
        return f'set{sorted(map(snap, x))}'
    t = type(x).__name__
    if t == 'ContractionTree':
        return snap([[(n.parent, tuple(n.children)) for n in x.nodes], x.inds[:], x.dims, x.path()])
    if t == 'Tensor':
        return snap(['T', x.inds, x.dims, x.array, x.tags])
    if t == 'TensorNetwork':
        return snap(['N', list(x.tensors), x.output_inds, x.sparse_inds, x.tags])
    if t == 'SimpleCostModel':
        return snap(['M', *(str(getattr(x, a, None)) for a in ('max_width', 'cost_type', 'width_type', 'n_projs')), x.sparse_inds])
    if t == 'Optimizer' and hasattr(x, 'min_ctree'):
        return snap(['O', x.ctree, x.min_ctree, x.prng_state, x.disable_shared_inds, x.cmodel, str(x.total_cost), str(x.min_total_cost),
                     *([x.slices, x.min_slices, x.skip_slices] if hasattr(x, 'slices') else [])])
    if t == 'ContractionResults':
        return snap(['R', {k: (str(v) if k == 'cost' else v) for k, v in sorted(vars(x).items())}])
    if t == 'SamplingIntermediateState':
        return snap(list(x)) if hasattr(x, '__iter__') else repr(x)
    return repr(x)


class Program:
    """Values held by a program, and the events of its run."""

    def __init__(self, rng):
        self.rng, self.kinds, self.vals, self.ev, self.ranks = rng, [], [], [], {}

    def add(self, kind, x):
        self.kinds.append(kind)
        self.vals.append(x)
        return x

    def own(self, x, kind='container'):
        return self.add(kind, x)

    def note(self, op, what, r=0):
        texts = [snap(x) for x in self.vals]
        self.ev.append(dict(op=op, what=what, r=r, kinds=list(self.kinds), vals=[self.ranks.setdefault(t, len(self.ranks)) for t in texts]))

    def call(self, what, f, *kinds):
        """Results are kept under the given kinds."""
        try:
            x = f()
        except (ValueError, RuntimeError, IndexError, TypeError, KeyError, AssertionError) as e:
            self.note('call', f'{what} refused ({type(e).__name__})')
            return None
        for k, y in zip(kinds, x if len(kinds) > 1 else [x]):
            self.add(k, y)
        self.note('call', what)
        return x

    def index(self, x):
        return next(j for j, y in enumerate(self.vals) if y is x)

    def some(self, *kinds):
        js = [j for j, k in enumerate(self.kinds) if k in kinds]
        return self.rng.choice(js) if js else None


def scramble(rng, x):
    """The program changes a container or an array of its own."""
    if isinstance(x, np.ndarray):
        x += 1 if x.size else 0
    elif isinstance(x, dict):
        how = rng.random()
        if how < .4 or not x:
            x.clear()
            x['other'] = 3
        else:
            k = rng.choice(list(x))
            x[k] = x[k] + 1 if isinstance(x[k], int) else 'other'
    elif isinstance(x, set):
        x.clear() if rng.random() < .5 else x.add('other')
    else:
        inner = [y for y in x if isinstance(y, list)]
        how = rng.random()
        if inner and how < .4:
            y = rng.choice(inner)
            y.reverse() if rng.random() < .3 and len(y) > 1 else y.append('other')
        elif how < .6 and len(x) > 1:
            x.reverse()
        elif how < .8:
            x.clear()
        else:
            x.append('other')


def network(p):
    """A network in containers of the program's own."""
    rng = p.rng
    n = rng.randint(2, 5)
    ts, d, out = netgen.gen_net(rng, n, dims=rng.choice([(2,), (2, 3)]), connected=rng.random() < .7, max_log2=14)
    mp, _ = name_map(rng, d)
    kind = rng.choice([list, list, tuple])
    hyper = rng.random() < .3
    q = dict(n=n, ts=p.own([kind(mp[x] for x in xs) for xs in ts]), dims=p.own({mp[x]: d[x] for x in d}), out=p.own([mp[x] for x in out]),
             path=p.own([list(e) if rng.random() < .5 else tuple(e) for e in netgen.random_path(rng, n)]), shapes=[[d[x] for x in xs] for xs in ts])
    if rng.random() < .3:
        q['out'] = p.own(set(q['out']))
    # some tensors are diagonal, so that they can be decomposed
    def array(s):
        a = np.array([rng.choice([0., 1., -2., .5]) for _ in range(int(np.prod(s, dtype=int)))]).reshape(s)
        if hyper and len(s) > 1 and s[0] == s[1]:
            a = a * np.eye(s[0]).reshape([s[0], s[0]] + [1] * (len(s) - 2))
        return a.astype(complex) if rng.random() < .3 else a
    q['arrays'] = p.own([array(s) for s in q['shapes']])
    for a in q['arrays']:
        p.own(a, 'array')
    return q


def gates(p):
    rng = p.rng
    names = [lambda j: j, lambda j: f'q{j}', lambda j: ('a', j)][rng.randrange(3)]
    gs = []
    for j in range(rng.randint(2, 7)):
        k = rng.choice([1, 1, 2])
        g = rings.random_gate(rng, k, permutation=True) if k == 2 else rings.random_gate(rng, k)
        m = p.own(np.array(g.array()), 'array')
        gs.append([m, [names(x) for x in rng.sample(range(3), k)]] if rng.random() < .5 else (m, tuple(names(x) for x in rng.sample(range(3), k))))
    return p.own(gs)


def step_core(p, q):
    from tnco.ctree import ContractionTree, traverse_tree
    import tnco.optimize.prob as P
    from tnco.optimize.finite_width import cost_model as fc, optimizer as fo
    from tnco.optimize.infinite_memory import cost_model as ic, optimizer as io
    rng = p.rng
    r = rng.random()
    if r < .2 or p.some('tree') is None:
        p.call('ContractionTree', lambda: ContractionTree(q['path'], q['ts'], q['dims'], output_inds=q['out']), 'tree')
    elif r < .45 or p.some('optimizer') is None:
        ct = p.vals[p.some('tree')]
        sp = p.own(rng.sample(list(q['dims']), min(len(q['dims']), rng.randint(0, 2))))
        skip = p.own(rng.sample(list(q['dims']), min(len(q['dims']), rng.randint(0, 1))))
        np_ = 2 if sp else None
        if rng.random() < .5:
            cm = p.call('cost model', lambda: fc.SimpleCostModel(max_width=rng.choice([2, 3., 4.]), sparse_inds=sp or None, n_projs=np_), 'model')
            f = lambda: fo.Optimizer(ct, cm, seed=rng.choice([None, 7]), skip_slices=skip or None, disable_shared_inds=rng.random() < .7)
        else:
            cm = p.call('cost model', lambda: ic.SimpleCostModel(sparse_inds=sp or None, n_projs=np_), 'model')
            f = lambda: io.Optimizer(ct, cm, seed=rng.choice([None, 7]), disable_shared_inds=rng.random() < .7)
        if cm is not None:
            p.call('Optimizer', f, 'optimizer')
    elif r < .6:
        o = p.vals[p.some('optimizer')]
        what = rng.choice(['ctree', 'min_ctree', 'cmodel', 'slices', 'min_slices', 'skip_slices', 'prng_state', 'is_valid'])
        if hasattr(o, what):
            if what in ('ctree', 'min_ctree'):
                p.call(what, lambda: getattr(o, what), 'tree')
            else:
                p.call(what, lambda: o.is_valid() if what == 'is_valid' else getattr(o, what))
    elif r < .75:
        j = p.some('optimizer')
        o = p.vals[j]
        pr = rng.choice([P.BaseProbability, P.Greedy, lambda: P.MetropolisHastings(.5)])()
        for _ in range(rng.choice([1, 1, 5])):
            try:
                o.update(pr, update_slices=rng.random() < .5) if hasattr(o, 'slices') else o.update(pr)
            except RuntimeError:
                pass   # whether an update may fail is not the matter here
        p.note('step', 'update', j + 1)
    elif r < .85:
        j = p.some('tree')
        t = p.vals[j]
        t.swap_with_nn(rng.randrange(len(t.nodes)))
        p.note('step', 'swap_with_nn', j + 1)
    else:
        j = p.some('tree', 'optimizer', 'model')
        x, k = p.vals[j], p.kinds[j]
        how = rng.choice(['pickle', 'deepcopy', 'copy', 'eq', 'repr', 'traverse', 'look'])
        if how == 'pickle':
            p.call(how, lambda: pickle.loads(pickle.dumps(x)), k)
        elif how in ('copy', 'deepcopy') and k != 'model':
            p.call(how, lambda: getattr(copy, how)(x), k)
        elif how == 'eq':
            y = p.vals[p.some(k)]
            p.call(how, lambda: (x == y, x != y))
        elif how == 'traverse' and k == 'tree':
            p.call(how, lambda: list(traverse_tree(x, lambda *a: None) or ()))
        elif k == 'tree':
            # what is handed out is the program's own
            p.call('inds', lambda: [x.inds[:], x.dims, [repr(y) for y in x.nodes], x.path(), x.all_inds, x.output_inds, x.max_width(), x.is_valid()], 'container')
        else:
            p.call('repr', lambda: repr(x))


def step_utils(p, q):
    from tnco.utils import tensor, tn
    rng = p.rng
    ts, dims, out, path, arrays, n = q['ts'], q['dims'], q['out'], q['path'], q['arrays'], q['n']
    what = rng.choice(['contract', 'contract', 'random', 'fuse', 'decompose', 'subscripts', 'split', 'merge', 'read_inds', 'tensordot', 'svd', 'diagonal'])
    two = rng.sample(range(n), 2)
    if what == 'contract':
        a = arrays if rng.random() < .7 else None
        p.call(what, lambda: list(tn.contract(path, ts, output_inds=out, arrays=a, dims=dims if a is None or rng.random() < .4 else None)), 'raw')
    elif what == 'random':
        p.call(what, lambda: tn.get_random_contraction_path(ts, merge_paths=rng.random() < .5, autocomplete=rng.random() < .5, seed=5), 'raw')
    elif what == 'fuse':
        ex = p.own(list(dims)[:rng.randint(0, 1)])
        p.call(what, lambda: tn.fuse(ts, dims, rng.choice([1, 2, 3.5]), output_inds=out, exclude_inds=ex, seed=3,
                                     return_fused_inds=rng.random() < .5), 'raw')
    elif what == 'decompose':
        p.call(what, lambda: tn.decompose_hyper_inds(arrays, ts), 'raw')
    elif what == 'subscripts':
        p.call(what, lambda: tn.get_einsum_subscripts(ts, out))
    elif what == 'split':
        p.call(what, lambda: tn.split_contraction_path(n, path, return_connected_components=rng.random() < .5, normalize_paths=rng.random() < .5), 'raw')
    elif what == 'merge':
        parts = p.own([list(map(list, x)) for x in tn.split_contraction_path(n, path[:rng.randint(1, len(path))])])
        p.call(what, lambda: tn.merge_contraction_paths(n, parts, autocomplete=rng.random() < .5), 'raw')
    elif what == 'read_inds':
        m = p.own({x: [dims[x], *(['*'] if x in out else []), *(f't{j}' for j, xs in enumerate(ts) if x in xs)] for x in dims})
        p.call(what, lambda: tn.read_inds(m), 'raw')
    elif what == 'tensordot':
        a, b = two
        p.call(what, lambda: tensor.tensordot((arrays[a], ts[a]), (arrays[b], ts[b]), hyper_inds=[x for x in ts[a] if x in ts[b] and x in out]), 'raw')
    elif what == 'svd':
        a = two[0]
        left = p.own(list(ts[a][:len(ts[a]) // 2]))
        p.call(what, lambda: tensor.svd(arrays[a], ts[a], left), 'raw')
    else:
        a = two[0]
        p.call(what, lambda: (tensor.is_diagonal(arrays[a]), tensor.decompose_hyper_inds(arrays[a], ts[a]))[1], 'raw')


def step_app(p, q):
    from tnco.app import Optimizer, Tensor, TensorNetwork, dump_results, load_tn
    rng = p.rng
    r = rng.random()
    if r < .3 or p.some('network') is None:
        tags = p.own({'a': 1})
        objs = p.own([Tensor(xs, array=a, tags=tags) if rng.random() < .6 else Tensor(xs, dims=[q['dims'][x] for x in xs])
                      for xs, a in zip(q['ts'], q['arrays'])])
        sp = p.own(list(q['dims'])[:rng.randint(0, 1)])
        t2 = p.own({'b': 2})
        for t in objs:
            p.add('tensor', t)
        p.call('TensorNetwork', lambda: TensorNetwork(objs, output_inds=q['out'], sparse_inds=sp or None, tags=t2), 'network')
    elif r < .5:
        x = p.vals[p.some('network')]
        p.call('look', lambda: [x.ts_inds, x.arrays, x.ts_tags, x.inds, dict(x.dims), list(x), x.n_tensors, x.to_json()], 'raw')
    elif r < .65:
        opts = dict(fuse=rng.choice([0, 2, 4]), decompose_hyper_inds=rng.random() < .5, seed=3)
        if rng.random() < .6:
            x = p.vals[p.some('network')]
            p.call('load_tn', lambda: load_tn(x, **opts), 'network')
        else:
            c = q['gates']
            ini = p.own({x: '0' for _, qs in c for x in qs})
            fin = p.own({x: rng.choice('01+') for _, qs in c for x in qs})
            p.call('load_tn of gates', lambda: load_tn(c, initial_state=ini, final_state=fin, **opts), 'network')
    elif r < .85:
        x = p.vals[p.some('network')]
        betas = p.own([0., 1., 2.])
        o = Optimizer(method='sa', max_width=rng.choice([None, 3]), seed=4, n_jobs=1)
        kw = dict(n_projs=2) if x.sparse_inds else {}
        p.call('optimize', lambda: o.optimize(x, betas=betas, n_runs=rng.choice([1, 2]), fuse=rng.choice([0, 3]), **kw), 'network', 'raw')
        if isinstance(p.vals[-1], list) and p.kinds[-1] == 'raw':
            for y in list(p.vals[-1]):
                p.add('results', y)
            p.note('call', 'results')
    else:
        j = p.some('results')
        if j is not None:
            res = p.own([p.vals[j]])
            x = p.vals[p.some('network')]
            p.call('dump', lambda: dump_results(x, res, output_format='json'), 'raw')
            p.call('to_json', lambda: p.vals[j].to_json())


def step_circuit(p, q):
    from tnco.app import Optimizer
    from tnco.app.circuit.sampling import sample
    from tnco.utils import circuit
    rng = p.rng
    c = q['gates']
    what = rng.choice(['commute', 'same', 'load', 'load', 'sample'])
    if what in ('commute', 'same'):
        g, h = rng.choice(c), rng.choice(c)
        p.call(what, lambda: getattr(circuit, what)(g, h))
    elif what == 'load':
        ini = p.own({x: rng.choice('01+-') for _, qs in c for x in qs})
        fin = p.own({x: rng.choice('01+-') for _, qs in c for x in qs} if rng.random() < .5 else {})
        p.call(what, lambda: list(circuit.load(c, initial_state=ini, final_state=fin or None, simplify=rng.random() < .6,
                                               decompose_hyper_inds=rng.random() < .6)), 'raw')
    else:
        order = p.own(sorted({x for _, qs in c for x in qs}, key=repr))
        o = Optimizer(method='sa', seed=4, n_jobs=1)
        p.call(what, lambda: sample(c, o, n_samples=3, seed=6, qubit_order=order if rng.random() < .5 else None, normalize=False,
                                    betas=(0, 1), n_steps=2))


@hushed
def case(seed):
    p = Program(random.Random(seed))
    rng = p.rng
    try:
        q = network(p)
        q['gates'] = gates(p)
        p.note('call', 'start')
        steps = rng.choice([[step_core], [step_core], [step_utils], [step_app], [step_circuit], [step_core, step_utils, step_app, step_circuit]])
        touched = False
        for _ in range(rng.randint(4, 14)):
            if not touched or steps == [step_core]:
                rng.choice(steps)(p, q)
            if len(p.ev) > 3 and rng.random() < .15:
                # from here on the description may be nonsense
                j = p.some('container', 'array')
                scramble(rng, p.vals[j])
                p.note('own', 'program', j + 1)
                touched = True
    except Exception as e:
        p.ev.append(dict(op='error', what=f'{type(e).__name__}: {e}'))
    return dict(ev=p.ev, seed=seed)


def run(ck):
    for sharing in ('FALSE', 'TRUE'):
        ck.model_check('MCFrame', 'SPECIFICATION Spec\nCONSTANTS Slots = {} Cells = {} Sharing = {}\nINVARIANTS Right Sound\n'
                       'CHECK_DEADLOCK FALSE\n'.format(*ck.size((4, 4), (5, 5)), sharing), workers=4)
    ck.load_core()
    cases = ck.pmap(case, [f'{ck.seed}/{ck.rng.random()}' for _ in range(ck.size(1500, 20000))], chunksize=10)
    ck.events += sum(len(c['ev']) for c in cases)
    for c, k, clauses in ck.validate('FrameTrace', cases):
        x = cases[c]
        e, o = x['ev'][k - 1], x['ev'][k - 2]
        diff = [e['kinds'][j] for j in range(min(len(e.get('vals', [])), len(o.get('vals', [])))) if e['vals'][j] != o['vals'][j]]
        ck.report(f'program {x["seed"]} event {k}: {", ".join(clauses)}: {e["what"]} {diff} after {[y["what"] for y in x["ev"][:k - 1]]}', x,
                  event=k, clauses=clauses, module='FrameTrace')
    ck.extra['calls'] = {w: sum(e['what'] == w for c in cases for e in c['ev']) for w in sorted({e['what'] for c in cases for e in c['ev']})}
    ck.sample(dict(what=[e['what'] for e in cases[-1]['ev']], last=cases[-1]['ev'][-1]))
