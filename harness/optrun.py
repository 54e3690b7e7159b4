"""Recording runs of the optimizers as traces for spec/OptTrace.tla."""
import math
import pickle
from fractions import Fraction

import numpy as np

from harness import netgen

BASE = 10**4


def limbs(n):
    out = []
    while n:
        out.append(n % BASE)
        n //= BASE
    return out


def link(x):
    return x + 1 if x is not None and x >= 0 else 0


def tree_of(ctree):
    """Links of a contraction tree (1-based, 0 = none)."""
    par, c1, c2 = [], [], []
    for n in ctree.nodes:
        a, b = n.children
        par.append(link(n.parent))
        c1.append(link(a))
        c2.append(link(b))
    return dict(par=par, c1=c1, c2=c2)


REL = dict(float32=2e-5, float64=1e-9, float128=1e-9, float1024=1e-9)


def interval(dec, log2, ctype, big):
    """Integers which the reported cost can stand for.

    Two reports have to agree: the decimal (6 significant digits) and the logarithm.
    """
    log2 = float(log2)
    dec = float(dec)
    if not (math.isfinite(log2) and math.isfinite(dec)):
        return dict(lo=1, hi=0, blo=[1], bhi=[])
    # the logarithm of a float32 is itself rounded to 24 bits
    rel = REL[ctype] * max(1., abs(log2) / 8) if ctype == 'float32' else REL[ctype] * max(1., abs(log2) / 64)
    e = int(math.floor(log2))
    v = Fraction(2.**(log2 - e)) * Fraction(2)**e
    d = Fraction(dec)
    lo = max(v * (1 - Fraction(rel)), d * (1 - Fraction(1e-5)))
    hi = min(v * (1 + Fraction(rel)), d * (1 + Fraction(1e-5)))
    lo, hi = math.ceil(lo), math.floor(hi)
    if lo > hi:
        lo, hi = 1, 0
    if big:
        return dict(lo=0, hi=0, blo=limbs(lo), bhi=limbs(hi))
    top = 2**31 - 1
    return dict(lo=min(max(lo, 0), top), hi=min(max(hi, 0), top), blo=[], bhi=[])


class Run:
    """One optimizer over one network, observed through its public interface."""

    def __init__(self, spec):
        """spec: plain data which fully determines the run."""
        self.spec = spec
        self.ids = {x: i + 1 for i, x in enumerate(spec['order'])}

    def build(self, **over):
        s = {**self.spec, **over}
        from tnco.ctree import ContractionTree
        ct = ContractionTree(s['path'], s['ts'], s['dims'], output_inds=s['out'])
        if s['finite']:
            from tnco.optimize.finite_width.cost_model import SimpleCostModel
            from tnco.optimize.finite_width.optimizer import Optimizer
            cm = SimpleCostModel(max_width=s['max_width'], cost_type=s['cost_type'], width_type=s['width_type'],
                                 sparse_inds=s['sparse'] or None, n_projs=s['nproj'] or None)
            return Optimizer(ct, cm, max_number_new_slices=s['maxnew'], skip_slices=s['skip'] or None,
                             seed=s['seed'], disable_shared_inds=not s['share'])
        from tnco.optimize.infinite_memory.cost_model import SimpleCostModel
        from tnco.optimize.infinite_memory.optimizer import Optimizer
        cm = SimpleCostModel(cost_type=s['cost_type'], sparse_inds=s['sparse'] or None, n_projs=s['nproj'] or None)
        return Optimizer(ct, cm, seed=s['seed'], disable_shared_inds=not s['share'])

    def prob(self, kind, beta=1.):
        import tnco.optimize.prob as P
        c = self.spec['cost_type']
        return dict(base=lambda: P.BaseProbability(cost_type=c), greedy=lambda: P.Greedy(cost_type=c),
                    mh=lambda: P.MetropolisHastings(beta, cost_type=c))[kind]()

    def _inds(self, xs):
        return sorted(self.ids[x] for x in xs)

    def observe(self, opt):
        s = self.spec
        c, m = opt.ctree, opt.min_ctree
        return dict(tree_of(c), inds=[self._inds(xs) for xs in c.inds[:]],
                    sl=self._inds(opt.slices) if s['finite'] else [],
                    cost=interval(opt.total_cost, opt.log2_total_cost, s['cost_type'], s['big']),
                    valid=bool(opt.is_valid()),
                    best=dict(tree_of(m), inds=[self._inds(xs) for xs in m.inds[:]],
                              sl=self._inds(opt.min_slices) if s['finite'] else [],
                              cost=interval(opt.min_total_cost, opt.log2_min_total_cost, s['cost_type'], s['big'])))

    def update(self, opt, pr, reslice):
        if self.spec['finite']:
            opt.update(pr, update_slices=reslice)
        else:
            opt.update(pr)

    def header(self):
        s = self.spec
        return dict(net=dict(ts=[self._inds(xs) for xs in s['ts']], dims=[s['dims'][x] for x in s['order']],
                             out=self._inds(s['out'])),
                    cf=dict(sparse=self._inds(s['sparse']), nproj=s['nproj'] if s['sparse'] else 0,
                            share=s['share'], finite=s['finite'], maxsize=s['maxsize'], maxnew=s['maxnew'],
                            skip=self._inds(s['skip']), big=s['big']))

    def construct(self):
        """Only the construction: is the starting contraction accepted?

        The tree itself is observed on an optimizer without the request.
        """
        case = dict(self.header(), ev=[], spec=dict(self.spec), plan=[])
        case['spec']['dims'] = [[k, v] for k, v in self.spec['dims'].items()]
        try:
            o = self.observe(self.build())
            what = ''
        except Exception as e:
            o, what = None, f'{type(e).__name__}: {e}'
        self.spec = {**self.spec, 'share': False}
        case['init'] = self.observe(self.build())
        case['cf'] = {**case['cf'], 'share': False}
        case['ev'].append(dict(op='shared', accepted=o is not None, what=what))
        return case

    def trace(self, plan):
        """Run the plan [(op, prob kind, beta, reslice)], recording the state after each event."""
        case = dict(self.header(), ev=[], spec={k: v for k, v in self.spec.items()}, plan=plan)
        case['spec']['dims'] = [[k, v] for k, v in self.spec['dims'].items()]
        try:
            opt = self.build()
            case['init'] = self.observe(opt)
        except Exception as e:  # the construction is expected to work
            case['init'] = None
            case['init_error'] = f'{type(e).__name__}: {e}'
            return case
        for op, kind, beta, reslice in plan:
            try:
                if op == 'update':
                    self.update(opt, self.prob(kind, beta), reslice)
                elif op.startswith('many'):
                    pr = self.prob(kind, beta)
                    for _ in range(int(op[4:])):
                        self.update(opt, pr, reslice)
                elif op == 'pickle':
                    opt = pickle.loads(pickle.dumps(opt))
                elif op == 'look':
                    opt.is_valid(), repr(opt), opt.ctree.path(), opt == opt
                pr = kind if kind != 'mh' or beta > 0 else 'base'
                case['ev'].append(dict(op=op.rstrip('0123456789'), pr=pr, reslice=bool(reslice and self.spec['finite']),
                                       o=self.observe(opt)))
            except Exception as e:
                case['ev'].append(dict(op='error', what=f'{type(e).__name__}: {e}'))
                break
        return case


def random_spec(rng, *, finite=False, n=None, dims=None, sparse=None, share=None, seed=None, ctype=None, big=False,
                maxnew=None, skip=None, names=None, max_log2=26, edge=False, **kw):
    """A random network and configuration (plain data), with an unambiguous width limit."""
    while True:
        nn = n or rng.randint(2, 7)
        dd = dims or rng.choice([(2,), (2, 3), (2, 4), (1, 2, 3), (2, 3, 5)])
        sh = rng.random() < .4 if share is None else share
        ts, d, out = netgen.gen_net(rng, nn, dims=dd, connected=sh, p_dangle=rng.choice([0, 0, .5]), max_log2=None if big else max_log2, **kw)
        path = netgen.connected_path(rng, ts, out) if sh else netgen.random_path(rng, nn)
        if path is None:
            continue
        order = sorted(d)
        mp = {x: x for x in order}
        if names or (names is None and rng.random() < .3):
            mp = {x: rng.choice([f'i{x}', ('q', x), x * 7]) for x in order}
        ts = [[mp[x] for x in xs] for xs in ts]
        d = {mp[x]: v for x, v in d.items()}
        out = [mp[x] for x in out]
        order = [mp[x] for x in order]
        sp, npj = [], 0
        if sparse or (sparse is None and rng.random() < .3):
            sp = [x for x in order if rng.random() < .5]
            npj = rng.choice([1, 2, 3, 4, 5, 8])
        ct = ctype or rng.choice(['float64', 'float64', 'float1024', 'float128', 'float32'])
        if ct == 'float32' and not big and sum(math.log2(v) for v in d.values()) + math.log2(2 * nn) > 24:
            continue  # costs are exact
        s = dict(ts=ts, dims=d, out=out, order=order, path=path, sparse=sp, nproj=npj if sp else 0, share=sh,
                 finite=finite, maxsize=0, max_width=0., maxnew=0, skip=[], big=big,
                 seed=rng.randrange(2**31) if seed is None else seed,
                 cost_type=ct,
                 width_type='float32')
        if finite:
            total = [1]
            for xs in ts:
                p = 1
                for x in xs:
                    p *= d[x]
                total.append(p)
            top = max(total) * rng.choice([1, 2, 4])
            size = rng.randint(1, max(1, top))
            if rng.random() < .3:
                size = rng.choice([1, 2, 3, 4, 6, 8, 12, 16])
            # halfway between two sizes, or exactly a power of two if all sizes are
            exact = all(v & (v - 1) == 0 for v in d.values()) and npj & (npj - 1) == 0
            if exact and rng.random() < .6:
                size = 1 << (size.bit_length() - 1)
                s['max_width'] = float(size.bit_length() - 1)
            else:
                s['max_width'] = math.log2(size + .5)
            s['width_type'] = rng.choice(['float32', 'float64', 'float128'])
            if edge:
                # exactly the width of some tensor, up to rounding: whether it fits is left open
                some = [v for v in d.values() if v > 1]
                size = math.prod(rng.sample(some, rng.randint(1, min(5, len(some))))) if some else 1
                w = rng.choice([math.log2(size), sum(map(math.log2, netgen.factors(size)))])
                ft = dict(float32=np.float32, float64=np.float64, float128=np.float64)[s['width_type']]
                s['max_width'] = float(rng.choice([ft(w), np.nextafter(ft(w), ft(0)), np.nextafter(ft(w), ft(99))])) if w else 0.
            s['maxsize'] = size
            s['maxnew'] = rng.choice([0, 0, 1, 2, 3, 50]) if maxnew is None else maxnew
            if skip or (skip is None and rng.random() < .3):
                s['skip'] = [x for x in order if rng.random() < .25]
        return s


def plan(rng, k, *, finite, kinds=('base', 'greedy', 'mh'), pickles=.0, looks=.0, many=.0):
    out = []
    for _ in range(k):
        r = rng.random()
        if r < pickles:
            out.append(('pickle', 'base', 0., False))
        elif r < pickles + looks:
            out.append(('look', 'base', 0., False))
        elif r < pickles + looks + many:
            out.append((f'many{rng.choice([2, 10, 100, 500])}', rng.choice(kinds), rng.choice([.1, 1., 5.]), finite and rng.random() < .5))
        else:
            out.append(('update', rng.choice(kinds), rng.choice([.1, 1., 5.]), finite and rng.random() < .5))
    return out
