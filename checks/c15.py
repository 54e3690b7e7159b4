import copy
import math

import numpy as np

from harness import netgen
from harness.names import hushed, loud, name_map

P1 = lambda path: [[a + 1, b + 1] for a, b in path]
flat = lambda a: [int(x) for x in np.asarray(a).ravel()]


def ints(rng, shape, zero=.3):
    a = np.array([0 if rng.random() < zero else rng.randint(-3, 3) for _ in range(int(np.prod(shape, dtype=int)))], dtype=int)
    a = a.reshape(shape)
    if a.ndim > 1 and rng.random() < .3:
        # not contiguous in memory
        p = list(range(a.ndim))
        rng.shuffle(p)
        a = np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p))
    return a


def whole(a):
    r = np.real(a)
    assert np.all(np.imag(a) == 0) and np.all(r == np.round(r)), 'not integer'
    return flat(np.round(r))


PLANT = ['shape', 'rank', 'arrays', 'dims', 'nodims', 'same', 'missing']


@hushed
def case(rng, net, path, hasout, dtype, planted='', badout=False):
    from tnco.utils.tn import contract
    ts, d, out = net
    m = max(d)
    mp, back = name_map(rng, range(1, m + 2))
    tsn = [[mp[x] for x in xs] for xs in ts]
    arrays = [ints(rng, [d[x] for x in xs]) for xs in ts]
    dims = {mp[x]: d[x] for x in d}
    on = [mp[x] for x in out] + ([mp[m + 1]] if badout else [])
    c = dict(kind='contract', net=dict(ts=ts, dims=[d.get(x, 1) for x in range(1, m + 2)], out=[back[x] for x in on] if hasout else []),
             hasout=hasout, arrays=[flat(a) for a in arrays], path=P1(path), refused=False, planted=planted, error='', left=[],
             values=[], shapes=[], outs=[], only=[], untouched=True)
    give = [a.astype(dtype) for a in arrays]
    if rng.random() < .2:
        give = [a.tolist() if a.size else a for a in give]
    gd = dims if rng.random() < .4 else None
    if gd and len(set(d.values())) == 1 and rng.random() < .5:
        gd = next(iter(d.values()))
    only_dims = dims
    if planted == 'shape':
        v = rng.choice([v for v, xs in enumerate(ts) if xs])
        k = rng.randrange(len(ts[v]))
        give[v] = np.ones([d[x] + (j == k) for j, x in enumerate(ts[v])])
        if sum(xs.count(ts[v][k]) for xs in ts) == 1:
            gd = dims   # otherwise nothing contradicts the shape
    elif planted == 'rank':
        v = rng.randrange(len(ts))
        give[v] = np.ones([d[x] for x in ts[v]] + [1])
    elif planted == 'arrays':
        give = give[:-1]
    elif planted == 'dims':
        x = rng.choice([x for xs in ts for x in xs])
        gd = dict(dims)
        gd[mp[x]] += 1
    elif planted == 'nodims':
        gd, give = None, None
    elif planted == 'missing':
        give = None
        gd = dict(dims)
        gd.pop(mp[rng.choice([x for xs in ts for x in xs])])
    elif planted == 'same':
        path = list(path)
        path[rng.randrange(len(path))] = (0, 0)
    kw = dict(output_inds=on) if hasout else {}
    keep = copy.deepcopy((tsn, give, gd, on, path))
    try:
        try:
            r = contract(iter(path) if rng.random() < .3 else path, tsn, arrays=give, dims=gd, **kw, **loud(rng))
        except (ValueError, IndexError) as e:
            c.update(refused=True, message=str(e))
            return c
        if give is None:
            return c
        left, outs, arr = r
        left2, outs2 = contract(path, tsn, dims=only_dims, **kw, **loud(rng))
        I = lambda xs: [back[x] for x in xs]
        c.update(left=[I(x) for x in left], only=[I(x) for x in left2], values=[whole(a) for a in arr],
                 shapes=[list(map(int, np.shape(a))) for a in arr], outs=sorted(I(outs)))
        assert sorted(I(outs2)) == c['outs'], 'output indices depend on arrays'
        new = (tsn, give, gd, on, path)
        c['untouched'] = repr(new) == repr(keep)
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def dot_case(rng):
    from tnco.utils.tensor import tensordot
    m = rng.randint(1, 5)
    d = [rng.choice([1, 2, 3]) for _ in range(m)]
    mp, back = name_map(rng, range(1, m + 1))
    xs = rng.sample(range(1, m + 1), rng.randint(0, min(4, m)))
    ys = rng.sample(range(1, m + 1), rng.randint(0, min(4, m)))
    sh = [x for x in xs if x in ys]
    hyper = [x for x in sh if rng.random() < .4]
    if rng.random() < .1:
        hyper.append(rng.randint(1, m))
        hyper = list(dict.fromkeys(hyper))
    rng.shuffle(hyper)
    ax, ay = (ints(rng, [d[x - 1] for x in q]) for q in (xs, ys))
    c = dict(kind='dot', xs=xs, ys=ys, dims=d, hyper=hyper, ax=flat(ax), ay=flat(ay), zs=[], only=[], az=[], shape=[], refused=False,
             error='')
    I = lambda q: [mp[x] for x in q]
    dt = rng.choice([int, float, complex])
    kw = dict(hyper_inds=I(hyper)) if hyper or rng.random() < .5 else {}
    try:
        try:
            az, zs = tensordot((ax.astype(dt), I(xs)), (ay.astype(dt), I(ys)), **kw)
        except ValueError as e:
            c.update(refused=True)
            return c
        only = tensordot((ax.astype(dt) if rng.random() < .5 else None, I(xs)), (None, I(ys)), return_inds_only=True, **kw)
        c.update(zs=[back[x] for x in zs], only=[back[x] for x in only], az=whole(az), shape=list(map(int, np.shape(az))))
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def einsum_case(rng, big=False):
    from tnco.utils import tensor, tn
    m = rng.randint(1, 12) if not big else rng.choice([60, 200])
    n = rng.randint(1, 6)
    ts = [rng.sample(range(1, m + 1), rng.randint(0, min(m, 6 if not big else 40))) for _ in range(n)]
    pool = sorted({x for xs in ts for x in xs})
    out = [x for x in pool if rng.random() < .4]
    rng.shuffle(out)
    mp, _ = name_map(rng, range(1, m + 1))
    I = lambda q: [mp[x] for x in q]
    two = n == 2 and not big and rng.random() < .5
    c = dict(kind='einsum', ts=ts, out=out, terms=[], rhs=[], error='')
    try:
        s = tensor.get_einsum_subscripts(I(ts[0]), I(ts[1]), I(out)) if two else tn.get_einsum_subscripts(map(I, ts), I(out))
        lhs, rhs = s.split('->')
        c.update(terms=[[ord(x) for x in t] for t in lhs.split(',')], rhs=[ord(x) for x in rhs])
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    ck.model_check('MCValues', 'SPECIFICATION Spec\nCONSTANTS n = 3 m = 2\nINVARIANTS Value\nCHECK_DEADLOCK FALSE\n')
    if not ck.quick:
        ck.model_check('MCValues', 'SPECIFICATION Spec\nCONSTANTS n = 3 m = 3\nINVARIANTS Value\nCHECK_DEADLOCK FALSE\n', workers=6, timeout=800)
    rng = ck.rng
    cases = []
    for _ in range(ck.size(1600, 6000)):
        n = rng.randint(1, 6)
        net = netgen.gen_net(rng, n, dims=rng.choice([(2,), (1, 2, 3), (2, 3)]), p_hyper=rng.choice([0, 0, .3, .7]),
                             p_out=rng.choice([0, .3, .9]), p_dangle=rng.choice([0, .5]), max_inds=rng.choice([n, n + 3]),
                             max_log2=9 + math.log2(2 * n))
        if rng.random() < .1:
            net[0].append([])
        path = netgen.random_path(rng, len(net[0]))
        if rng.random() < .2:
            path = path[:rng.randint(0, len(path))]
        hyper = any(sum(x in xs for xs in net[0]) > 2 for x in net[1])
        hasout = rng.random() < (.95 if hyper else .7)
        planted = rng.choice(PLANT) if rng.random() < .15 and any(net[0]) and path else ''
        badout = hasout and rng.random() < .03
        cases.append(case(rng, net, path, hasout, rng.choice([int, float, complex, np.float32]), planted, badout))
    cases += [dot_case(rng) for _ in range(ck.size(1200, 4000))]
    cases += [einsum_case(rng, k % 10 == 0) for k in range(ck.size(240, 300))]
    # symbols never repeat
    from tnco.utils.tn import get_symbol
    ts = [list(range(k, k + 100)) for k in (1, 101, 1 + 55100, 1 + 55200, 1 + 55300)]
    cases.append(dict(kind='einsum', ts=ts, out=[], rhs=[], error='', terms=[[ord(get_symbol(x - 1)) for x in q] for q in ts]))
    if len({get_symbol(k) for k in range(10**5)}) != 10**5:
        ck.report('get_symbol repeats a symbol below 100000', {})
    rng.shuffle(cases)
    ck.events += sum(len(c.get('path', ())) for c in cases)
    for c, k, clauses in ck.validate('ContractTrace', cases):
        x = cases[c]
        ck.report(f'{x["kind"]} {x.get("net", x)} path={x.get("path")} planted={x.get("planted")}: {", ".join(clauses)} '
                  f'{x["error"]} {x.get("message", "")}', x, clauses=clauses, module='ContractTrace')
    ck.sample(cases[-1])
    ck.extra['refused'] = sum(c.get('refused', False) for c in cases)
