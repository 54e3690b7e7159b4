import copy
import math

from harness import netgen
from harness.names import hushed, loud, name_map

P1 = lambda path: [[a + 1, b + 1] for a, b in path]


@hushed
def case(rng, net, hasout, excl, W, exact, seed, bad=None):
    from tnco.utils.tn import contract, fuse
    ts, d, out = net
    order = list(range(1, max(d) + 1))
    mp, back = name_map(rng, range(1, max(d) + 3))
    tsn = [[mp[x] for x in xs] for xs in ts]
    dims = {mp[x]: d[x] for x in d}
    if bad == 'missing' and d:
        dims.pop(mp[rng.choice([x for xs in ts for x in xs])])
    elif len(set(d.values())) == 1 and rng.random() < .5:
        dims = next(iter(d.values()))
    ex = [mp[x] for x in excl] + ([mp[max(d) + 1]] if bad == 'excl' else [])
    on = [mp[x] for x in out] + ([mp[max(d) + 2]] if bad == 'out' else [])
    c = dict(kind='fuse', net=dict(ts=ts, dims=[d.get(x, 1) for x in order] + [1, 1], out=[back[x] for x in on] if hasout else []),
             hasout=hasout, excl=[back[x] for x in ex], missing=bad == 'missing', W=W, seed=seed, refused=False, error='',
             path=[], fused=[], left=[], same=True, untouched=True)
    kw = dict(output_inds=on) if hasout else {}
    keep = copy.deepcopy((tsn, dims, on, ex))
    width = math.log2(W) if exact else math.log2(W + .5)
    if exact and width == int(width) and rng.random() < .5:
        width = int(width)
    c['width'] = width
    try:
        f = lambda **k: fuse(iter(tsn) if rng.random() < .3 else tsn, dims, width, exclude_inds=ex, seed=seed, **kw, **k, **loud(rng))
        try:
            path, fused = f(return_fused_inds=True)
        except ValueError as e:
            c.update(refused=True, message=str(e))
            return c
        c['same'] = f() == path and f(return_fused_inds=True) == (path, fused)
        left, _ = contract(path, tsn, dims=dims, **kw)
        c['untouched'] = keep == (tsn, dims, on, ex)
        c.update(path=P1(path), fused=[[back[x] for x in xs] for xs in fused], left=[[back[x] for x in xs] for xs in left])
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    cfg = ('SPECIFICATION Spec\nCONSTANTS n = {} m = {} Kind = "fuse" Dim = 2 W = {}\n'
           'INVARIANTS FuseWidth FuseExcl FuseEnd FuseAll\nCHECK_DEADLOCK FALSE\n')
    for n, m, W in ((3, 2, 1), (3, 2, 2), (3, 3, 4), (3, 3, 8)) if ck.quick else ((3, 3, 1), (3, 3, 2), (3, 3, 4), (3, 3, 8), (4, 2, 2), (4, 2, 4)):
        ck.model_check('MCPathOps', cfg.format(n, m, W), name=f'MCPathOps(fuse,{n},{m},{W})')
    rng = ck.rng
    cases = []
    for _ in range(ck.size(2800, 10000)):
        wide = rng.random() < .25   # everything fits: hence nothing is left
        n = rng.randint(1, 10) if not wide else rng.randint(2, 6)
        dims = rng.choice([(2,), (2,), (2, 4, 8), (1, 2, 3, 5), (3,)])
        net = netgen.gen_net(rng, n, dims=dims, p_hyper=rng.choice([0, 0, .3, .7]) if not wide else .7, p_out=rng.choice([0, .3, .8]),
                             p_dangle=rng.choice([0, .5]), max_inds=rng.choice([n, n + 3]) if not wide else rng.randint(1, n))
        used = sorted({x for xs in net[0] for x in xs})
        excl = [x for x in used if rng.random() < .15] if rng.random() < .4 else []
        exact = all(v in (1, 2, 4, 8) for v in dims)
        if exact:
            W = 2 ** rng.choice([0, 1, 2, 3, 4, 5, 6, 10])
        else:
            W = rng.choice([1, 2, 3, 5, 6, 9, 15, 27, 30, 81, 100, 1000])
        if wide:
            W = 2**24
        hyper = any(sum(x in xs for xs in net[0]) > 2 for x in used)
        hasout = rng.random() < (.95 if hyper else .7)
        bad = rng.choice(['missing', 'excl', 'out']) if rng.random() < .06 and used else None
        if bad == 'out' and not hasout:
            bad = None
        cases.append(case(rng, net, hasout, excl, W, exact, rng.randrange(10**6), bad))
    ck.events += sum(len(c['path']) for c in cases)
    for c, k, clauses in ck.validate('PathOpsTrace', cases):
        x = cases[c]
        ck.report(f'fuse ts={x["net"]["ts"]} dims={x["net"]["dims"]} out={x["net"]["out"] if x["hasout"] else None} excl={x["excl"]} '
                  f'width={x["width"]} seed={x["seed"]} -> {x["path"]} {x["fused"]}: {", ".join(clauses)} {x["error"]} {x.get("message", "")}',
                  x, clauses=clauses, module='PathOpsTrace')
    ck.sample(cases[-1])
    ck.extra['refused'] = sum(c['refused'] for c in cases)
    ck.extra['fused_steps'] = sum(len(c['path']) for c in cases)
