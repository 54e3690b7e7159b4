"""Calls of the top-level optimizer against spec/App.tla."""
import contextlib
import io
import math
import random
from fractions import Fraction

from harness import netgen
from harness.names import name_map
from harness.optrun import limbs

REL = dict(float32=1e-4, float64=1e-8, float128=1e-8, float1024=1e-8)


def between(cost, ctype):
    """Naturals which the reported cost can stand for (objects are reported with 6 digits)."""
    v = float(cost)
    if not math.isfinite(v):
        return dict(blo=[1], bhi=[])
    r = max(REL[ctype], 0 if isinstance(cost, (int, float)) else 2e-5)
    f = Fraction(v)
    return dict(blo=limbs(math.ceil(f * (1 - Fraction(r)))), bhi=limbs(math.floor(f * (1 + Fraction(r)))))


def problem(rng, n=None):
    n = n or rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
    dims = rng.choice([(2,), (2, 3), (2, 4), (1, 2, 3), (2, 3, 5)])
    ts, d, out = netgen.gen_net(rng, n, dims=dims, p_hyper=rng.choice([0, .3]), p_out=rng.choice([.1, .5]), p_dangle=rng.choice([0, 0, .5]),
                                max_inds=rng.choice([n + 4, max(1, n - 2), n]), max_log2=26)
    mp, back = name_map(rng, sorted(d))
    sparse, nproj = [], 0
    if rng.random() < .3:
        sparse = [x for x in sorted(d) if rng.random() < .5]
        nproj = rng.choice([1, 2, 3, 4, 5, 8])
    finite = rng.random() < .6
    maxsize, maxw = 0, rng.choice([None, math.inf])
    if finite:
        top = max([1] + [math.prod(d[x] for x in xs) for xs in ts]) * rng.choice([1, 2, 4])
        maxsize = rng.randint(1, top)
        if rng.random() < .3:
            maxsize = rng.choice([1, 2, 3, 4, 6, 8, 16])
        maxw = math.log2(maxsize + .5)
        if all(v & (v - 1) == 0 for v in d.values()) and nproj & (nproj - 1) == 0 and rng.random() < .6:
            maxsize = 1 << (maxsize.bit_length() - 1)
            maxw = float(maxsize.bit_length() - 1)
    return dict(n=n, ts=ts, d=d, out=out, mp=mp, back=back, sparse=sparse, nproj=nproj if sparse else 0, finite=finite, maxsize=maxsize,
                maxw=maxw)


def network(p, rng):
    """The network as a TensorNetwork or as a list of indices."""
    from tnco.app import Tensor, TensorNetwork
    mp = p['mp']
    hyper = any(sum(x in t for t in p['ts']) > 2 for x in p['d'])
    once = {x for x in p['d'] if sum(x in t for t in p['ts']) == 1}
    give = hyper or set(p['out']) != once or rng.random() < .5
    return TensorNetwork([Tensor([mp[x] for x in t], [p['d'][x] for x in t]) for t in p['ts']],
                         output_inds=[mp[x] for x in p['out']] if give else None,
                         sparse_inds=[mp[x] for x in p['sparse']] or None)


def optimize(p, tn, o, *, steps, nruns, seed, jobs, extra=()):
    from tnco.app import Optimizer
    opt = Optimizer(max_width=p['maxw'], n_jobs=jobs, seed=seed, cost_type=o['cost_type'], width_type=o['width_type'], verbose=o['verbose'])
    kw = dict(extra)
    if p['sparse']:
        kw['n_projs'] = p['nproj']
    if p['finite']:
        kw['update_slices'] = o['update_slices']
    import warnings
    with contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return opt.optimize(tn, *steps, n_runs=nruns, fuse=o['fuse'], decompose_hyper_inds=o['decompose'], **kw)


def options(rng):
    return dict(cost_type=rng.choice(['float64', 'float64', 'float1024', 'float128', 'float32']),
                width_type=rng.choice(['float32', 'float64', 'float128']), verbose=rng.choice([0, 0, 0, 2]),
                update_slices=rng.choice([1, 2, 3, 10]), fuse=rng.choice([None, 0, 0, 0, 2, 4]), decompose=rng.random() < .5)


def record_result(p, r, ctype):
    ids = p['back']
    c = dict(paths=[[[a + 1, b + 1] for a, b in q] for q in r.disconnected_paths],
             path=[[a + 1, b + 1] for a, b in r.path],
             costs=[between(x, ctype) for x in r.disconnected_costs], cost=between(r.cost, ctype), slices=[], all=[])
    if p['finite']:
        c['slices'] = [sorted(ids[x] for x in q) for q in r.disconnected_slices]
        c['all'] = sorted(ids[x] for x in r.slices)
    return c


def ranks(rows):
    vals = sorted({x for q in rows for x in q})
    return [[vals.index(x) for x in q] for q in rows]


def opt_case(rng, jobs_again):
    p = problem(rng)
    o = options(rng)
    seed, nruns = rng.choice([0, 1, rng.randrange(2**31)]), rng.choice([1, 2, 3, 5])
    m = rng.randint(1, 12)
    b = [rng.choice([.1, 1, 5, 20.]) for _ in range(m)]
    steps = rng.choice([((b[0], b[0] + rng.choice([-.05, 7, 100.])), m), (b,), (b, rng.choice([m, 1, m + 2])), (b, float(m)), (tuple(b) if m != 2 else b,)])
    extra = {}
    if rng.random() < .15:
        extra['timeout'] = rng.choice([0, 1e-3, 100])
    c = dict(what='opt', finite=p['finite'], maxsize=p['maxsize'], nruns=nruns, sparse=p['sparse'], nproj=p['nproj'], results=[], order=[],
             again=[], same=True, error='', call=f'ts={p["ts"]} out={p["out"]} d={p["d"]} {o} steps={steps} seed={seed} runs={nruns} '
             f'max_width={p["maxw"]} sparse={p["sparse"]}/{p["nproj"]} {extra}')
    try:
        tn = network(p, rng)
        give = lambda: iter(steps[0]) if len(steps) > 1 and not isinstance(steps[0], tuple) and o['verbose'] else steps[0]
        got, res = optimize(p, tn, o, steps=(give(), *steps[1:]), nruns=nruns, seed=seed, jobs=1, extra=extra)
        ids = p['back']
        c['net'] = dict(ts=[sorted(ids[x] for x in t) for t in got.ts_inds], dims=[p['d'][x] for x in sorted(p['d'])],
                        out=sorted(ids[x] for x in got.output_inds))
        # without fusing nothing happens to the network
        if not o['fuse']:
            c['same'] = [list(t) for t in got.ts_inds] == [list(t) for t in tn.ts_inds] and got.output_inds == tn.output_inds
        c['same'] = c['same'] and dict(got.dims).items() <= dict(tn.dims).items() and got.sparse_inds == tn.sparse_inds
        c['results'] = [record_result(p, r, o['cost_type']) for r in res]
        c['order'] = ranks([[r.cost for r in res]])[0]
        if 'timeout' in extra and extra['timeout'] != 0:
            jobs_again = ()
        for j in jobs_again:
            _, r2 = optimize(p, network(p, rng), {**o, 'verbose': rng.choice([0, 2])}, steps=(give(), *steps[1:]), nruns=nruns,
                             seed=seed, jobs=j, extra=extra)
            c['again'].append([record_result(p, r, o['cost_type']) for r in r2])
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
        c['net'] = dict(ts=[], dims=[], out=[])
    return c


def longer_case(rng):
    p = problem(rng, n=rng.choice([5, 6, 7, 8]))
    o = {**options(rng), 'verbose': 0}
    seed, nruns = rng.randrange(2**31), rng.choice([1, 2, 4])
    b = [rng.choice([.01, .1, 1.]) for _ in range(30)]
    c = dict(what='longer', finite=p['finite'], ranks=[], error='', call=f'ts={p["ts"]} out={p["out"]} d={p["d"]} {o} seed={seed} '
             f'max_width={p["maxw"]} sparse={p["sparse"]}/{p["nproj"]}')
    try:
        rows = []
        for k in (1, 2, 3, 5, 10, 30):
            _, res = optimize(p, network(p, random.Random(0)), o, steps=(b[:k],) if k % 2 else (b, k), nruns=nruns, seed=seed, jobs=1)
            rows.append([r.cost for r in res])
        c['ranks'] = ranks(rows)
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def refuse_case(rng):
    """Parameters which make no sense."""
    p = problem(rng, n=3)
    o = {**options(rng), 'verbose': 0}
    steps, want = rng.choice([(((1., 2.),), False), (((1., 1.), 3), False), (([1., 2.], 0), False), (([1.], -1), False), (([1.], 1.5), False),
                              (([1.], 1), True), (((1., 2.), 2), True), (((1., 2.), 0), False)])
    c = dict(what='refuse', want=want, ok=True, error='', call=f'{steps}')
    try:
        optimize(p, network(p, rng), o, steps=steps, nruns=1, seed=1, jobs=1)
    except ValueError:
        c['ok'] = False
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def task(job):
    kind, seed, again = job
    rng = random.Random(seed)
    return dict(opt=lambda: opt_case(rng, again), longer=lambda: longer_case(rng), refuse=lambda: refuse_case(rng))[kind]()


def run(ck):
    ck.load_core()
    rng = ck.rng
    jobs = [('opt', rng.random(), (1,) if rng.random() < .3 else ()) for _ in range(ck.size(1250, 8000))]
    jobs += [('longer', rng.random(), ()) for _ in range(ck.size(250, 1500))]
    jobs += [('refuse', rng.random(), ()) for _ in range(ck.size(16, 40))]
    cases = ck.pmap(task, jobs, chunksize=4)
    # several workers: from one process, which keeps them
    cases += [task(('opt', rng.random(), (j,))) for j in ([2] * 8 + [4] * 4 + [-1] * 2) * ck.size(1, 15)]
    ck.events += sum(len(c.get('results', ())) for c in cases)
    for c, k, clauses in ck.validate('AppTrace', cases):
        x = cases[c]
        ck.report(f'{x["what"]} {x["call"]}: {", ".join(clauses)} {x["error"]}', x, clauses=clauses, module='AppTrace')
    ck.sample({k: v for k, v in cases[-1].items() if k != 'again'})
    ok = [c for c in cases if c['what'] == 'opt' and not c['error']]
    ck.extra['networks'] = dict(total=len(ok), several_components=sum(len(r['paths']) > 1 for c in ok for r in c['results'][:1]),
                                with_slices=sum(bool(r['all']) for c in ok for r in c['results'][:1]))
