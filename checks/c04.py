import math
import random
import time
from collections import Counter

from harness import optrun
from checks.optcommon import decide, mc, record


def values(ck, core, n):
    """Values of the probability objects."""
    import tnco.optimize.prob as P
    out = []
    for _ in range(n):
        ct = ck.rng.choice(['float32', 'float64', 'float128', 'float1024'])
        kind = ck.rng.choice(['base', 'greedy', 'mh', 'mh', 'mh'])
        q = ck.rng.choice([0, 1, 2, 2, 3, 4, 6, 10])
        old = ck.rng.choice([1, 2, 3, 7, 100, 12345, 10**6])
        delta = ck.rng.choice([-1, 0, 1]) * ck.rng.choice([1, 2, 3, 50, 999, 12345, 10**6])
        if delta < -old:
            delta = -old
        c = dict(what='value', kind=kind, q=q, delta=delta, old=old, ctype=ct)
        try:
            p = dict(base=lambda: P.BaseProbability(cost_type=ct), greedy=lambda: P.Greedy(cost_type=ct),
                     mh=lambda: P.MetropolisHastings(q / 2, cost_type=ct))[kind]()
            num = core.float1024 if ct == 'float1024' else int
            v = float(p(num(delta), num(old)))
            if not math.isfinite(v):
                raise ValueError(f'value {v}')
            c.update(lo=max(-10**6, math.floor(v * 10**6 * (1 - 1e-5)) - 1), hi=math.ceil(v * 10**6 * (1 + 1e-5)) + 1)
            c['hi'] = min(c['hi'], 2 * 10**9)
            c['lo'] = min(c['lo'], 2 * 10**9)
            # zero is really zero
            if kind == 'greedy' and v == 0:
                c.update(lo=0, hi=0)
        except Exception as e:
            c.update(what='error', error=f'{type(e).__name__}: {e}')
        out.append(c)
    return out


def chain(job):
    """How often every tree follows every other one in a long run.

    With slicing, moves may add slices: then every update starts from a new optimizer.
    """
    seed, n_up, budget, slicing = job
    rng = random.Random(seed)
    from tnco.optimize.prob import BaseProbability, Greedy, MetropolisHastings
    kind = rng.choice(['mh', 'mh', 'mh', 'base', 'greedy'])
    beta = rng.choice([1, 2, 3]) if kind == 'mh' else 0
    while True:
        share = rng.random() < .3
        finite = slicing or rng.random() < .4
        s = optrun.random_spec(rng, finite=finite, n=rng.choice([3, 4, 4]) if not share else rng.choice([4, 5]),
                               dims=(2, 3), share=share, maxnew=rng.choice([1, 2, 3]) if slicing else 0,
                               skip=None if slicing else False, ctype=rng.choice(['float64', 'float32', 'float1024']),
                               max_log2=9, max_inds=6)
        try:
            r = optrun.Run(s)
            opt = r.build()
        except Exception:
            continue
        if finite and not slicing and rng.random() < .6 and opt.slices:
            continue
        if slicing:
            # some update has to add slices
            if len(opt.slices) > 2:
                continue
            def grows(i):
                o = r.build(seed=i)
                a = o.slices
                r.update(o, r.prob('base'), False)
                return o.slices != a
            if not any(grows(i) for i in range(6)):
                continue
        break
    case = dict(r.header(), what='run', kind=kind, beta=beta, spec={**s, 'dims': list(s['dims'].items())})
    pr = r.prob(kind, beta)
    seen = {}
    t0 = time.time()

    def key():
        t = optrun.tree_of(opt.ctree)
        k = (tuple(t['par']), opt.slices if finite else ())
        return k, t

    try:
        k, t = key()
        for i in range(n_up):
            if slicing:
                opt = r.build(seed=rng.randrange(2**31))
                k, t = key()
            elif kind == 'greedy' and i % 20 == 0:
                # greedy runs end up in a minimum: kick
                for _ in range(4):
                    r.update(opt, r.prob('base'), False)
                k, t = key()
            f = seen.setdefault(k, (t, Counter(), {}))
            r.update(opt, pr, False)
            k, t = key()
            f[1][k] += 1
            f[2][k] = t
            if i % 64 == 0 and time.time() - t0 > budget:
                break
    except Exception as e:
        case.update(what='error', error=f'{type(e).__name__}: {e}')
        return case
    sl = lambda k: r._inds(k[1])
    case['from'] = [dict(t=t, sl=sl(k), n=sum(c.values()), to=[dict(t=ts[x], sl=sl(x), n=n) for x, n in c.items()])
                    for k, (t, c, ts) in seen.items() if sum(c.values()) >= 30]
    return case


def run(ck):
    mc(ck, 'small', False, False, 'cost', 'greedy')
    core = ck.load_core()
    # exact: greedy and base runs, and moves which have to be accepted
    cases = record(ck, ck.size(40, 400), ck.size(40, 400), ck.size(12, 40), kinds=('greedy', 'mh'))
    cases += record(ck, ck.size(25, 250), ck.size(25, 250), ck.size(12, 40), kinds=('base', 'greedy'), maxnew=1)
    decide(ck, cases, ['C04', 'C06:error', 'construct'])
    vs = values(ck, core, ck.size(400, 4000))
    jobs = [(ck.size(16000, 60000), ck.size(2.5, 20), False)] * ck.size(8, 80)
    jobs += [(ck.size(8000, 30000), ck.size(4., 20), True)] * ck.size(24, 120)
    ts = ck.pmap(chain, [(f'{ck.prop}/{ck.seed}/{i}', *j) for i, j in enumerate(jobs)])
    ck.events += sum(f['n'] for c in ts for f in c.get('from', ()))
    cs = [{k: v for k, v in c.items() if k not in ('spec', 'error', 'ctype')} for c in ts + vs]
    for c, k, clauses in ck.validate('Accept', cs):
        x = (ts + vs)[c]
        ck.report(f'acceptance {x["what"]} kind={x["kind"]}: {", ".join(clauses)} '
                  f'{ {a: x[a] for a in ("q", "delta", "old", "lo", "hi", "ctype", "error", "spec", "beta") if a in x} }',
                  x, clauses=clauses, module='Accept')
