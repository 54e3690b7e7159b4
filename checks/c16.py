import itertools as its

import numpy as np

from checks.c15 import flat, ints
from harness import netgen
from harness.names import name_map


def structured(rng, inds, d, k):
    """An integer array which may be diagonal, constant, a permutation, or nearly so."""
    shape = [d[x] for x in inds]
    if rng.random() < .15:
        return ints(rng, shape)
    a = ints(rng, shape, zero=rng.choice([0, .2]))
    if rng.random() < .4:
        a = np.full(shape, rng.choice([1, 1, 2, -3]))
    # classes of indices which have to agree
    for dim in set(shape):
        same = [j for j in range(len(inds)) if shape[j] == dim]
        rng.shuffle(same)
        while len(same) > 1:
            take = [same.pop() for _ in range(rng.randint(1, len(same)))]
            if len(take) > 1 and rng.random() < .8:
                for f in its.product(*map(range, shape)):
                    if len({f[j] for j in take}) > 1:
                        a[f] = 0
    if k and rng.random() < .7:
        a = a + np.array([rng.choice([0, 0, rng.randint(-k, k)]) for _ in range(a.size)], dtype=int).reshape(shape)
    if rng.random() < .15 and a.size:
        a.reshape(-1)[rng.randrange(a.size)] += rng.choice([k + 1, 1, -k - 1])
    return a


def back_ints(a, scale):
    b = np.asarray(a) / scale
    assert np.all(np.abs(np.imag(b)) < 1e-6), 'imaginary part'
    b = np.real(b)
    assert np.all(np.abs(b - np.round(b)) < 1e-3), 'not an entry of the array'
    return flat(np.round(b))


def tensor_case(rng, diag=False):
    from tnco.utils.tensor import decompose_hyper_inds, is_diagonal
    m = rng.randint(2 if diag else 0, 5)
    dd = rng.choice([(2,), (2, 3), (1, 2), (3,)])
    d = {x: rng.choice(dd) for x in range(1, m + 1)}
    if m == 5 and max(d.values()) > 2:
        d = {x: min(2, v) for x, v in d.items()}
    inds = rng.sample(range(1, m + 1), m)
    k = rng.choice([0, 0, 1, 3])
    a = structured(rng, inds, d, k)
    if k:
        a = a + (a > 0) * 5
    scale = rng.choice([1., 1., 1e-3, 1e3])
    atol = (k + .5) * scale
    kw = dict(atol=atol)
    if k == 0 and scale >= 1 and rng.random() < .5:
        kw = rng.choice([{}, dict(atol=0), dict(atol=1e-3)])
    dt = rng.choice([float, complex])
    mp, back = name_map(rng, range(1, m + 1))
    I = [mp[x] for x in inds]
    c = dict(kind='diag' if diag else 'tensor', inds=inds, dims=[d[x] for x in range(1, m + 1)], k=k, q=flat(a), ninds=[], nq=[], merged=[],
             diag=False, error='', atol=kw)
    try:
        x = (a * scale).astype(dt)
        if diag:
            c['diag'] = bool(is_diagonal(x, **kw))
        else:
            (na, ni), h = decompose_hyper_inds(x, iter(I) if rng.random() < .3 else I, **kw)
            assert np.shape(na) == tuple(d[back[y]] for y in ni), 'shape of the new array'
            c.update(ninds=[back[y] for y in ni], nq=back_ints(na, scale),
                     merged=[[back[y], sorted(back[z] for z in s)] for y, s in h.items()])
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def net_case(rng):
    from tnco.utils.tn import decompose_hyper_inds
    n = rng.randint(1, 5)
    ts, d, _ = netgen.gen_net(rng, n, dims=rng.choice([(2,), (2,), (2, 3), (1, 2)]), p_hyper=rng.choice([0, .3]), p_dangle=.5,
                              max_inds=rng.choice([n, n + 2]), max_log2=8 + np.log2(2 * n))
    m = max(d)
    mp, back = name_map(rng, range(1, m + 1))
    arrays = [structured(rng, xs, d, 0) for xs in ts]
    scale = rng.choice([1., 1., 1e-3])
    kw = {} if rng.random() < .5 else dict(atol=scale * .5)
    c = dict(kind='net', ts=ts, dims=[d[x] for x in range(1, m + 1)], arrays=[flat(a) for a in arrays], nts=[], narrays=[],
             map=list(range(1, m + 1)), error='')
    try:
        xs = [(a * scale).astype(rng.choice([float, complex])) for a in arrays]
        na, ni, mm = decompose_hyper_inds(map(np.copy, xs), ([mp[x] for x in q] for q in ts), **kw)
        for a, q in zip(na, ni):
            assert np.shape(a) == tuple(d[back[y]] for y in q), 'shape of the new array'
        assert set(mm) == {mp[x] for q in ts for x in q}, 'index map'
        for x, y in mm.items():
            c['map'][back[x] - 1] = back[y]
        c.update(nts=[[back[y] for y in q] for q in ni], narrays=[back_ints(a, scale) for a in na])
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def svd_case(rng):
    from tnco.utils.tensor import svd
    m = rng.randint(1, 4)
    d = [rng.choice([1, 2, 2, 3]) for _ in range(m)]
    inds = rng.sample(range(1, m + 1), m)
    left = rng.sample(inds, rng.randint(0, m))
    a = ints(rng, [d[x - 1] for x in inds], zero=rng.choice([0, .4, .8]))
    mp, back = name_map(rng, range(1, m + 3))
    atol = rng.choice([None, .3, 1.5])
    kw = {} if atol is None else dict(atol=atol)
    # the name of the new index
    new = m + 1
    clash = False
    named = rng.random() < .6
    if named:
        name = mp[new]
        if rng.random() < .1:
            name, clash = mp[rng.choice(inds)], True
        kw['svd_index_name'] = name
    else:
        kw['seed'] = rng.randrange(20)
        if rng.random() < .3:
            # the name drawn from this seed is taken already
            one = svd(np.eye(2), 'xy', 'x', seed=kw['seed'])
            mp[inds[0]] = one[1][1][0]
            back = {v: k for k, v in mp.items()}
    I = lambda q: [mp[x] for x in q]
    lf = I(left)
    if rng.random() < .05:
        lf = lf + [mp[m + 2]]
    c = dict(kind='svd', inds=inds, dims=d + [1, 1], left=[back[x] for x in lf], q=flat(a), new=new, clash=clash, refused=False,
             atol1000=0 if atol is None else int(atol * 1000), parts=[], error='')
    try:
        try:
            r = svd(a.astype(float), I(inds), lf, **kw)
        except ValueError:
            c['refused'] = True
            return c
        if not named and len(r) == 3:
            x, = r[1][1]
            assert x not in back, 'the new index is not new'
            back[x] = new
        for q, xs in r:
            c['parts'].append(dict(inds=[back[x] for x in xs], q=[int(round(v * 4096)) for v in np.asarray(q).ravel().tolist()]))
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    ck.model_check('MCDecomp', 'SPECIFICATION Spec\nCONSTANT Keep = TRUE\nINVARIANTS Value Indices\nCHECK_DEADLOCK FALSE\n')
    rng = ck.rng
    cases = [tensor_case(rng) for _ in range(ck.size(2500, 8000))]
    cases += [tensor_case(rng, True) for _ in range(ck.size(500, 1000))]
    cases += [net_case(rng) for _ in range(ck.size(2500, 8000))]
    cases += [svd_case(rng) for _ in range(ck.size(1250, 3000))]
    rng.shuffle(cases)
    for c, k, clauses in ck.validate('DecompTrace', cases):
        x = cases[c]
        ck.report(f'{x["kind"]} {({k: v for k, v in x.items() if k not in ("kind", "error")})}: {", ".join(clauses)} {x["error"]}',
                  x, clauses=clauses, module='DecompTrace')
    ck.sample(cases[-1])
    ck.extra['kinds'] = {k: sum(c['kind'] == k for c in cases) for k in ('tensor', 'diag', 'net', 'svd')}
    ck.extra['decomposed'] = sum(bool(c.get('merged')) for c in cases)
