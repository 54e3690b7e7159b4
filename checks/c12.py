import copy
import itertools as its

from harness import netgen
from harness.names import hushed, loud, name_map

P1 = lambda path: [[a + 1, b + 1] for a, b in path]


@hushed
def case(rng, ts, seed):
    from tnco.utils.tn import get_random_contraction_path as gp
    m = max((x for xs in ts for x in xs), default=0)
    mp, _ = name_map(rng, range(1, m + 1))
    tsn = [[mp[x] for x in xs] for xs in ts]
    if rng.random() < .3:
        tsn = [tuple(xs) for xs in tsn]
    c = dict(kind='random', net=dict(ts=ts, dims=[2] * m, out=[]), seed=seed, error='', same=True, untouched=True, paths=[],
             merged=[], complete=[])
    keep = copy.deepcopy(tsn)
    try:
        run = lambda **kw: gp(iter(tsn) if rng.random() < .3 else tsn, seed=seed, **kw, **loud(rng))
        a = run(merge_paths=False)
        b = run(merge_paths=True, autocomplete=False)
        d = run()
        c['same'] = (a == run(merge_paths=False) and b == run(autocomplete=False) and d == run(merge_paths=True, autocomplete=True))
        c['untouched'] = keep == tsn
        c.update(paths=[P1(p) for p in a], merged=P1(b), complete=P1(d))
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    cfg = 'SPECIFICATION Spec\nCONSTANTS n = {} m = {} Kind = "random" Dim = 2 W = 1\nINVARIANTS RandomEnd RandomShare\nCHECK_DEADLOCK FALSE\n'
    ck.model_check('MCPathOps', cfg.format(3, 3))
    ck.model_check('MCPathOps', cfg.format(4, 2 if ck.quick else 3), workers=4)
    rng = ck.rng
    nets = []
    # every network of up to three tensors over three indices
    for n in (1, 2, 3):
        sets = [list(s) for k in range(4) for s in its.combinations((1, 2, 3), k)]
        nets += [[list(s) for s in x] for x in its.product(sets, repeat=n)]
    if ck.quick:
        nets = rng.sample(nets, 250)
    nets += [[]]
    for _ in range(ck.size(500, 8000)):
        n = rng.randint(2, 12)
        if rng.random() < .5:
            ts = netgen.gen_net(rng, n, p_hyper=rng.choice([0, .3, .7]), max_inds=rng.choice([n, n + 5, 2 * n + 4]), max_log2=None)[0]
        else:
            # few indices, heavily shared; duplicated and scalar tensors
            m = rng.randint(1, 5)
            ts = [[x for x in range(1, m + 1) if rng.random() < rng.choice([.1, .3, .6])] for _ in range(n)]
        ts = [list(x) for x in ts]
        if rng.random() < .3:
            ts += [list(rng.choice(ts)) for _ in range(2)] + [[]]
        nets.append(ts)
    cases = [case(rng, ts, rng.randrange(10**6)) for ts in nets]
    ck.events += sum(len(c['complete']) for c in cases)
    for c, k, clauses in ck.validate('PathOpsTrace', cases):
        x = cases[c]
        ck.report(f'ts={x["net"]["ts"]} seed={x["seed"]}: {", ".join(clauses)} {x["error"]} paths={x["paths"]} complete={x["complete"]}',
                  x, clauses=clauses, module='PathOpsTrace')
    ck.sample(cases[-1])
