"""Consistency of tensors and tensor networks against spec/Network.tla."""
import copy
import itertools as its
import pickle

import numpy as np

from harness.names import name_map


def ident(x):
    return x


def number(rng, halves):
    v = halves / 2
    if halves % 2:
        return v
    return rng.choice([int(v), int(v), int(v), float(v), np.int64(v)])


def tensor_case(rng):
    from tnco.app import Tensor
    n = rng.randint(0, 4)
    mp, back = name_map(rng, range(1, 7))
    inds = rng.sample(range(1, 7), n)
    dk = rng.choice(['none', 'one', 'list', 'list'])
    has = rng.random() < .6
    shape = [rng.choice([1, 2, 3]) for _ in range(n)]
    if dk == 'one' and rng.random() < .7:
        shape = shape[:1] * n
    dims = dict(none=[], one=[2 * (shape[0] if shape else rng.choice([1, 2]))], list=[2 * d for d in shape])[dk]
    r = rng.random()
    if r < .1 and dims:
        dims[rng.randrange(len(dims))] = rng.choice([0, -2, 3, 1, -1, 4, 2])
    elif r < .2 and dk == 'list':
        dims = rng.choice([dims + [2], dims[:-1]])
    elif r < .3:
        shape = rng.choice([shape + [1], shape[:-1], [d + 1 for d in shape]])
    elif r < .36 and n > 1:
        shape = shape[::-1]
    t = dict(inds=inds, dk=dk, dims=dims, hasarray=has, shape=shape if has else [])
    c = dict(kind='tensor', t=t, refused=False, views=[], error='')
    a = None
    if has:
        a = np.arange(np.prod(shape, dtype=int)).reshape(shape) * rng.choice([1, 1., 1j])
        give = a.tolist() if rng.random() < .3 and a.size else a
    gi = [mp[x] for x in inds]
    gd = None if dk == 'none' else number(rng, dims[0]) if dk == 'one' else [number(rng, d) for d in dims]
    tags = rng.choice([None, {}, {'a': 1}, {('x', 2): [1, 2]}])
    kw = {}
    if gd is not None or rng.random() < .5:
        kw['dims'] = gd if not isinstance(gd, list) else rng.choice([list, tuple, iter])(gd)
    if has or rng.random() < .3:
        kw['array'] = give if has else None
    if tags is not None or rng.random() < .3:
        kw['tags'] = tags
    try:
        try:
            x = Tensor(rng.choice([list, tuple, iter])(gi), **kw)
        except ValueError as e:
            c['refused'] = True
            return c
        for how in ['new', 'pickle', 'copy', 'deepcopy']:
            y = dict(new=ident, pickle=lambda z: pickle.loads(pickle.dumps(z)), copy=copy.copy, deepcopy=copy.deepcopy)[how](x)
            c['views'].append(dict(how=how, inds=[back[z] for z in y.inds], dims=[int(d) for d in y.dims], ndim=y.ndim,
                                   array=(y.array is None) if not has else bool(np.array_equal(y.array, a)) and y.array.shape == a.shape,
                                   tags=y.tags == (tags or {}), same=bool(y == x) and bool(x == y)))
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def make_net(rng, c, mp, arrays=None, tags=None):
    from tnco.app import Tensor, TensorNetwork
    ts = []
    for v, t in enumerate(c['ts']):
        inds = [mp[x] for x in t['inds']]
        if arrays is None or arrays[v] is None:
            ts.append(Tensor(inds, dims=t['dims'], tags=dict(v=v)))
        else:
            ts.append(Tensor(inds, array=arrays[v], tags=dict(v=v)))
    kw = {}
    if c['hasout'] or rng.random() < .3:
        kw['output_inds'] = [mp[x] for x in c['out']] if c['hasout'] else None
    if c['hassparse'] or rng.random() < .3:
        kw['sparse_inds'] = rng.choice([list, set, tuple])(mp[x] for x in c['sparse']) if c['hassparse'] else None
    if tags is not None:
        kw['tags'] = tags
    return ts, TensorNetwork(rng.choice([list, tuple, iter])(ts), **kw)


def net_case(rng, net):
    c = dict(kind='net', net=net, refused=False, views=[], error='')
    mp, back = name_map(rng, range(1, 10))
    arrays = [np.arange(np.prod(t['dims'], dtype=int)).reshape(t['dims']) + 1. if rng.random() < .5 else None for t in net['ts']]
    tags = rng.choice([None, {}, {'t': [1]}])
    try:
        try:
            ts, x = make_net(rng, net, mp, arrays, tags)
        except ValueError:
            c['refused'] = True
            return c
        for how in ['new', rng.choice(['pickle', 'copy', 'deepcopy'])]:
            y = dict(new=ident, pickle=lambda z: pickle.loads(pickle.dumps(z)), copy=copy.copy, deepcopy=copy.deepcopy)[how](x)
            c['views'].append(dict(
                how=how, n=y.n_tensors, len=len(y), ts=[[back[z] for z in q] for q in y.ts_inds],
                dims=[[back[z], int(d)] for z, d in y.dims.items()], inds=sorted(back[z] for z in y.inds), ninds=y.n_inds,
                out=sorted(back[z] for z in y.output_inds), sparse=sorted(back[z] for z in y.sparse_inds),
                arrays=len(y.arrays) == len(arrays) and all((a is None) if b is None else bool(np.array_equal(a, b)) for a, b in zip(y.arrays, arrays)),
                tags=y.tags == (tags or {}) and [t['v'] for t in y.ts_tags] == list(range(len(ts))),
                items=list(y) == ts and all(y[j] == t for j, t in enumerate(ts)) and tuple(y.tensors) == tuple(ts),
                same=bool(y == x)))
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def all_nets(N, M):
    lists = [q for k in range(M + 1) for q in its.permutations(range(1, M + 1), k)]
    ts = [dict(inds=list(q), dims=list(d)) for q in lists for d in its.product([1, 2], repeat=len(q))]
    subs = [list(q) for k in range(3) for q in its.combinations(range(1, M + 2), k)]
    for n in range(N + 1):
        for q in its.product(ts, repeat=n):
            for o in [None, *subs]:
                for s in [None, *subs]:
                    yield dict(ts=list(q), hasout=o is not None, out=o or [], hassparse=s is not None, sparse=s or [])


def random_net(rng):
    n, m = rng.randint(1, 6), rng.randint(1, 7)
    d = [rng.choice([1, 2, 3]) for _ in range(m + 1)]
    ts = []
    for _ in range(n):
        q = rng.sample(range(1, m + 1), rng.randint(0, min(4, m)))
        ts.append(dict(inds=q, dims=[d[x] for x in q]))
    used = sorted({x for t in ts for x in t['inds']})
    if rng.random() < .1 and used:
        t = rng.choice([t for t in ts if t['inds']])
        t['dims'][rng.randrange(len(t['dims']))] += 1
    out = rng.sample(used, rng.randint(0, min(3, len(used)))) + ([m + 1] if rng.random() < .05 else [])
    sparse = rng.sample(used, rng.randint(0, min(3, len(used)))) + ([m + 1] if rng.random() < .05 else [])
    ho, hs = rng.random() < .8, rng.random() < .5
    return dict(ts=ts, hasout=ho, out=out if ho else [], hassparse=hs, sparse=sparse if hs else [])


def rtensor(rng, dims):
    n = rng.randint(0, 3)
    q = rng.sample(range(1, 5), n)
    d = [dims[x] for x in q]
    has = rng.random() < .7
    return dict(inds=q, dims=d, hasarray=has, q=[rng.choice([0, 10**6, -10**6, 3 * 10**6]) for _ in range(int(np.prod(d, dtype=int)))] if has else [])


def change(rng, t):
    t = copy.deepcopy(t)
    r = rng.random()
    if r < .35 and t['q']:
        q = list(t['q'])
        for _ in range(rng.choice([1, 1, 3])):
            j = rng.randrange(len(t['q']))
            t['q'][j] += rng.choice([5, -5, 20, -20, 9, 11, 10**6])
            t['q'][j] += abs(t['q'][j] - q[j]) == 10   # not the very limit
    elif r < .5:
        p = list(range(len(t['inds'])))
        rng.shuffle(p)
        t['inds'] = [t['inds'][j] for j in p]
        if rng.random() < .5:
            t['dims'] = [t['dims'][j] for j in p]
    elif r < .6 and t['inds']:
        j = rng.randrange(len(t['inds']))
        t['dims'][j] += 1
    elif r < .65 and t['inds']:
        t['inds'][rng.randrange(len(t['inds']))] = 9
    elif r < .75:
        t['hasarray'] = not t['hasarray']
    if r >= .35 or not t['q']:
        n = int(np.prod(t['dims'], dtype=int))
        t['q'] = (t['q'] + [0] * n)[:n] if t['hasarray'] else []
    return t


def build(t, mp, dtype):
    from tnco.app import Tensor
    a = np.array(t['q']).reshape(t['dims']) / 10**6 if t['hasarray'] else None
    if a is not None and dtype is complex:
        a = a * 1j
    return Tensor([mp[x] for x in t['inds']], dims=t['dims'], array=a)


def eq_case(rng):
    from tnco.app import TensorNetwork
    mp, _ = name_map(rng, range(1, 10))
    dims = [rng.choice([1, 2, 3]) for _ in range(10)]
    dt = rng.choice([float, complex])
    if rng.random() < .5:
        a = rtensor(rng, dims)
        b = change(rng, a) if rng.random() < .8 else rtensor(rng, dims)
        c = dict(kind='eq', a=a, b=b, error='', eq=False, qe=False, ne=False)
        mk = lambda t: build(t, mp, dt)
    else:
        ts = [rtensor(rng, dims) for _ in range(rng.randint(0, 3))]
        used = sorted({x for t in ts for x in t['inds']})
        pick = lambda: rng.sample(used, rng.randint(0, min(2, len(used))))
        a = dict(ts=ts, out=pick(), sparse=pick(), tag=rng.randint(0, 1))
        b = copy.deepcopy(a)
        r = rng.random()
        if r < .2:
            b['out'] = pick()
        elif r < .4:
            b['sparse'] = pick()
        elif r < .5:
            b['tag'] = 1 - b['tag']
        elif r < .6:
            rng.shuffle(b['ts'])
        elif r < .7 and ts:
            b['ts'] = b['ts'][:-1]
            left = {x for t in b['ts'] for x in t['inds']}
            b['out'], b['sparse'] = ([x for x in q if x in left] for q in (b['out'], b['sparse']))
        elif r < .85 and ts:
            j = rng.randrange(len(ts))
            t = b['ts'][j]
            if t['q']:
                t['q'][rng.randrange(len(t['q']))] += rng.choice([5, -5, 20, 9, 11])
        c = dict(kind='neteq', a=a, b=b, error='', eq=False, qe=False, ne=False)
        mk = lambda n: TensorNetwork([build(t, mp, dt) for t in n['ts']], output_inds=[mp[x] for x in n['out']],
                                     sparse_inds=[mp[x] for x in n['sparse']], tags=dict(tag=n['tag']))
    try:
        x, y = mk(a), mk(b)
        c.update(eq=bool(x == y), qe=bool(y == x), ne=bool(x != y))
        for z in [None, 1, 'x', (), object()]:
            if x == z or not x != z or z == x:
                c['error'] = f'equal to {z!r}'
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    ck.load_core()
    ck.model_check('MCNetwork', 'SPECIFICATION Spec\nCONSTANTS N = {} M = 2\nINVARIANTS Order Default Consistent Alone\n'
                   'CHECK_DEADLOCK FALSE\n'.format(ck.size(2, 3)), workers=4, timeout=3000)
    rng = ck.rng
    nets = list(all_nets(2, 2))
    rng.shuffle(nets)
    cases = [net_case(rng, q) for q in nets[:ck.size(8000, len(nets))]]
    cases += [net_case(rng, random_net(rng)) for _ in range(ck.size(2400, 8000))]
    cases += [tensor_case(rng) for _ in range(ck.size(4800, 10000))]
    cases += [eq_case(rng) for _ in range(ck.size(4800, 10000))]
    ck.events += len(cases)
    ck.check_cases('NetworkTrace', cases, lambda c, k: f'{c["kind"]} {c.get("t") or c.get("net") or (c["a"], c["b"])} refused={c.get("refused")} {c["error"]}')
    ck.sample(cases[-1])
    ck.extra['cases'] = {k: sum(c['kind'] == k for c in cases) for k in ('net', 'tensor', 'eq', 'neteq')}
    ck.assumptions += ['index lists of a tensor are free of repetitions', 'arrays are compared away from the tolerance 1e-5 by one part in ten']
