"""Annealing runs, update by update, against spec/Anneal.tla."""
import random

from checks import c18

FIX = 10**6


def fixed(x):
    return int(round(x * FIX))


class Recorder:
    """Records what is done to the optimizers meanwhile."""

    def __init__(self):
        from tnco.optimize.finite_width.optimizer import Optimizer as F
        from tnco.optimize.infinite_memory.optimizer import Optimizer as I
        self.classes, self.ev, self.num, self.keep = (F, I), [], {}, []

    def __enter__(self):
        self.old = [(c, c.__init__, c.update) for c in self.classes]
        for c, init, update in self.old:
            c.__init__, c.update = self.init(init), self.update(update)
        return self

    def __exit__(self, *a):
        for c, init, update in self.old:
            c.__init__, c.update = init, update

    def init(self, old):
        def f(opt, *a, **kw):
            old(opt, *a, **kw)
            self.keep.append(opt)
            self.num[id(opt)] = len(self.keep)
            self.ev.append(dict(op='start', cost=opt.total_cost, seed=str(opt.prng_state)))
        return f

    def update(self, old):
        def f(opt, prob, *a, **kw):
            old(opt, prob, *a, **kw)
            reslice = (a[0] if a else kw.get('update_slices', True)) if type(opt) is self.classes[0] else False
            self.ev.append(dict(op='update', o=self.num.get(id(opt), 0), beta=fixed(float(prob.beta)), reslice=bool(reslice), cost=opt.total_cost))
        return f


def case(seed):
    rng = random.Random(seed)
    p = c18.problem(rng)
    o = c18.options(rng)
    m = rng.choice([1, 2, 3, 5, 8, 12, 30])
    nruns = rng.choice([1, 1, 2, 3])
    r = rng.random()
    req = dict(range=False, b0=0, b1=0, n=m, list=[], u=o['update_slices'] if p['finite'] else 0)
    if r < .5:
        b0, b1 = rng.choice([(0, 1), (0., 10.), (1, 0), (.1, .7), (5, 40.), (rng.random(), rng.random() * 30)])
        steps = ((b0, b1), m)
        req.update(range=True, b0=fixed(b0), b1=fixed(b1))
        if rng.random() < .2:
            steps = ((b0, b1), float(m))
    else:
        b = [rng.choice([0, .1, 1, 5., 20, rng.random()]) for _ in range(m)]
        n = rng.choice([None, m, max(1, m - 1), 1, m + 3])
        req.update(list=[fixed(x) for x in b], n=n or m)
        give = rng.choice([list, list, iter, tuple])(b) if m != 2 or n is None else b
        if isinstance(give, tuple) and m == 2:
            give = b
        steps = (give,) if n is None else (give, n)
    extra = {}
    if rng.random() < .1:
        extra['timeout'] = rng.choice([0, 1e-3, 1e-2, 100])
    c = dict(req=req, runs=nruns, stopped=extra.get('timeout', 100) < 100, error='', results=[], ev=[],
             call=f'ts={p["ts"]} out={p["out"]} d={p["d"]} {o} steps={steps} runs={nruns} max_width={p["maxw"]} {extra}')
    rec = Recorder()
    try:
        tn = c18.network(p, rng)
        with rec:
            got, res = c18.optimize(p, tn, o, steps=steps, nruns=nruns, seed=rng.randrange(2**31), jobs=1, extra=extra)
        results = [[x for x, q in zip(r.disconnected_costs, r.disconnected_paths) if len(q)] for r in res]
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
        results = []
    ev = rec.ev
    try:
        vals = {x: j for j, x in enumerate(sorted({e['cost'] for e in ev} | {x for q in results for x in q}))}
        seeds = {x: j for j, x in enumerate(sorted({e['seed'] for e in ev if 'seed' in e}))}
        c['results'] = [[vals[x] for x in q] for q in results]
        c['ev'] = [{**e, 'cost': vals[e['cost']], **({'seed': seeds[e['seed']]} if 'seed' in e else {})} for e in ev]
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    c['ev'].append(dict(op='end'))
    return c


def run(ck):
    ck.model_check('MCAnneal', 'SPECIFICATION Spec\nVIEW View\nINVARIANTS End\nCHECK_DEADLOCK FALSE\n', workers=4)
    ck.load_core()
    rng = ck.rng
    cases = ck.pmap(case, [rng.random() for _ in range(ck.size(2400, 8000))], chunksize=8)
    ck.events += sum(len(c['ev']) for c in cases)
    for c, k, clauses in ck.validate('AnnealTrace', cases):
        x = cases[c]
        ck.report(f'{x["call"]}: event {k} {x["ev"][k - 1]}: {", ".join(clauses)} {x["error"]}', x, event=k, clauses=clauses, module='AnnealTrace')
    ck.sample({**cases[-1], 'ev': cases[-1]['ev'][:5]})
