"""Cost models against spec/CostModel.tla."""
import copy
import itertools as its
import math
import pickle
import sys
from fractions import Fraction

from harness.names import name_map
from harness.optrun import limbs

CT = dict(float32=24, float64=53, float128=53, float1024=1024)
TOP = dict(float32=120, float64=1000, float128=1000, float1024=1500)
WT = dict(float32=Fraction(1, 10**5), float64=Fraction(1, 10**12), float128=Fraction(1, 10**12))
BASE = dict(error='', A=[], B=[], sl=[], val=[], blo=[], bhi=[], bits=0, x=0, up=False, den=[1], p={}, ok=False, b=False, want=False,
            m=dict(dims=[], sparse=[], nproj=0))


def exact(cost, ctype):
    if ctype == 'float1024':
        t = format(cost, '.0f')
        return Fraction(int(t)) if t.lstrip('-').isdigit() else None
    return Fraction(cost) if math.isfinite(cost) else None


def pow2(w, side):
    """Rational bound of 2^w from below (side -1) or above (+1), for a rational w >= 0."""
    k = math.floor(w)
    f = float(w - k)
    return Fraction(2)**k * (Fraction(2.0**f) * (1 + side * Fraction(1, 10**14)))


def model(rng):
    n = rng.choice([1, 2, 3, 4, 6, 10, 20, 40])
    ctype = rng.choice(list(CT))
    finite = rng.random() < .6
    wtype = rng.choice(list(WT))
    pool = rng.choice([(2,), (1, 2, 3), (2, 4), (3,), (5, 7, 11), (2, 3, 1000), (99991, 2)])
    uniform = rng.random() < .3
    d = {x: pool[0] if uniform else rng.choice(pool) for x in range(1, n + 1)}
    while math.prod(d.values()).bit_length() > TOP[ctype]:
        d.popitem()
    n = len(d)
    sparse, nproj = [], 0
    if rng.random() < .5:
        sparse = [x for x in d if rng.random() < .5]
        if sparse or rng.random() < .5:
            nproj = rng.choice([1, 2, 3, 4, 5, 8, 100, 1000, 4096])
    return dict(n=n, d=d, ctype=ctype, finite=finite, wtype=wtype, sparse=sparse, nproj=nproj, uniform=uniform,
                give=bool(sparse or nproj or rng.random() < .5))


def construct(p, mp, **kw):
    from tnco.optimize.finite_width.cost_model import SimpleCostModel as Fin
    from tnco.optimize.infinite_memory.cost_model import SimpleCostModel as Inf
    a = dict(cost_type=p['ctype'], sparse_inds=(mp[x] for x in p['sparse']) if p['give'] else None, n_projs=p['nproj'] or None)
    if p['finite']:
        a.update(max_width=p.get('maxw', 10), width_type=p['wtype'])
    a.update(kw)
    return (Fin if p['finite'] else Inf)(**a)


def describe(p):
    # an empty set of sparse indices caps nothing
    return dict(dims=[p['d'][x] for x in range(1, p['n'] + 1)], sparse=sorted(p['sparse']), nproj=p['nproj'] if p['sparse'] else 0)


def subset(rng, p, q=None):
    q = rng.choice([.2, .5, .8, 1]) if q is None else q
    xs = [x for x in p['d'] if rng.random() < q]
    rng.shuffle(xs)
    return xs


def answers(rng, p):
    out = []
    mp, _ = name_map(rng, sorted(p['d']))
    dims = {mp[x]: v for x, v in p['d'].items()}
    if rng.random() < .2:
        dims['unused'] = 3
    if p['uniform'] and rng.random() < .8:
        dims = p['d'][1] if p['n'] else 2
    try:
        cm = construct(p, mp)
        if rng.random() < .3:
            cm = pickle.loads(pickle.dumps(cm)) if rng.random() < .7 else copy.deepcopy(cm)
    except Exception as x:
        return [dict(BASE, op='cost', error=f'{type(x).__name__}: {x}', given=str(p))]
    give = lambda xs: rng.choice([list, tuple, iter, frozenset])([mp[x] for x in xs])
    for _ in range(3):
        A, B = subset(rng, p), subset(rng, p)
        C = [x for x in {*A, *B} if rng.random() < .5]
        c = dict(BASE, op='cost', A=A, B=B, m=describe(p), given=f'{p} {dims if isinstance(dims, int) else ""}'[:400])
        try:
            args = [give(A), give(B), give(C), dims]
            if p['finite']:
                c['sl'] = subset(rng, p, .3)
                args.append(give(c['sl']))
            v = exact(cm.contraction_cost(*args), p['ctype'])
            if v is None or v < 0:
                c['error'] = 'not a natural number'
            else:
                r = Fraction(1, 2**(CT[p['ctype']] - 8))
                c.update(bits=CT[p['ctype']], val=limbs(int(v)) if v.denominator == 1 else [], blo=limbs(math.floor(v * (1 - r))),
                         bhi=limbs(math.ceil(v * (1 + r))))
        except Exception as x:
            c['error'] = f'{type(x).__name__}: {x}'
        out.append(c)
        if not p['finite']:
            continue
        c = dict(BASE, op='width', A=A, m=describe(p), given=str(p))
        try:
            w = Fraction(cm.width(give(A), dims))
            if w < 0:
                c['error'] = 'a negative width'
            else:
                e = WT[p['wtype']] * (1 + w)
                c.update(blo=limbs(math.ceil(pow2(max(w - e, Fraction(0)), -1)) if w > e else 1), bhi=limbs(math.floor(pow2(w + e, 1))))
        except Exception as x:
            c['error'] = f'{type(x).__name__}: {x}'
        out.append(c)
        if not p['d']:
            continue
        x = rng.choice([*p['d']])
        c = dict(BASE, op='delta', A=A, x=x, m=describe(p), given=str(p))
        try:
            w = Fraction(cm.delta_width(give(A), dims, mp[x]))
            tot = Fraction(math.log2(math.prod(p['d'].values())))
            e = WT[p['wtype']] * (1 + tot)
            den = 10**16
            c.update(up=w > 0 or (w == 0 and x not in A), blo=limbs(math.ceil(pow2(abs(w) - e, -1) * den) if abs(w) > e else 0),
                     bhi=limbs(math.floor(pow2(abs(w) + e, 1) * den)), den=limbs(den))
        except Exception as ex:
            c['error'] = f'{type(ex).__name__}: {ex}'
        out.append(c)
    # a dimension which is needed is missing
    if not isinstance(dims, int) and p['d']:
        x = rng.choice([*p['d']])
        less = {k: v for k, v in dims.items() if k != mp[x]}
        A = [x] + [y for y in subset(rng, p) if y != x]
        c = dict(BASE, op='missing', A=A, m=describe(p), given=str(p), ok=True)
        try:
            what = rng.choice(['cost', 'width', 'delta']) if p['finite'] else 'cost'
            if what == 'cost':
                a = [give(A), give([]), give([]), less] + [give([])] * p['finite']
                if rng.random() < .5:
                    a[0], a[1] = a[1], a[0]
                cm.contraction_cost(*a)
            elif what == 'width':
                cm.width(give(A), less)
            else:
                cm.delta_width(give(A), less, mp[x])
        except (ValueError, KeyError, TypeError, RuntimeError):
            c['ok'] = False
        except Exception as ex:
            c['error'] = f'{type(ex).__name__}: {ex}'
        out.append(c)
    return out


def models(rng):
    """Every combination of kinds of parameters."""
    out = []
    for fin, ct, wt, w, sp, npr in its.product([False, True], ['float32', 'FLOAT64', 'float128', 'float1024', 'float16', 'int'],
                                               ['float32', 'float64', 'float128', 'float1024', 'double'], ['ok', 'negative'],
                                               ['none', 'empty', 'some'], ['none', 'positive', 'zero', 'negative', 'fraction']):
        if not fin and (wt != 'float32' or w != 'ok'):
            continue
        p = dict(finite=fin, ctype=ct.lower(), wtype=wt, width=w, sparse=sp, nprojs=npr)
        a = dict(cost_type=ct, sparse_inds=dict(none=None, empty=[], some=['a', 'b'])[sp],
                 n_projs=dict(none=None, positive=rng.choice([1, 2, 50]), zero=0, negative=-2, fraction=1.5)[npr])
        if fin:
            a.update(max_width=rng.choice([0, 1.5, 20, math.inf]) if w == 'ok' else rng.choice([-1, -.5, -math.inf]), width_type=wt)
        c = dict(BASE, op='model', p=p, given=str(a))
        try:
            q = dict(finite=fin, ctype=ct, wtype=wt, sparse=[], give=False, nproj=0)
            cm = construct(q, {}, **a)
            c['ok'] = True
            if rng.random() < .5 and ct != 'FLOAT64':
                good = cm.cost_type == ct and cm.n_projs == a['n_projs'] and (cm.sparse_inds or None) == (frozenset(a['sparse_inds'] or ()) or None)
                if fin:
                    good = good and cm.width_type == wt and cm.max_width == a['max_width']
                if not good:
                    c['error'] = f'parameters are changed: {cm}'
        except (ValueError, NotImplementedError, TypeError):
            pass
        except Exception as x:
            c['error'] = f'{type(x).__name__}: {x}'
        out.append(c)
    return out


def equal(rng):
    """Models with one parameter changed, and copies."""
    p = model(rng)
    p['maxw'] = rng.choice([0, 3, 4.5])
    mp, _ = name_map(rng, sorted(p['d']))
    q = dict(p)
    what = rng.choice(['same', 'pickle', 'ctype', 'wtype', 'maxw', 'nproj', 'sparse'])
    if what == 'ctype':
        q['ctype'] = rng.choice([x for x in CT if x != p['ctype']])
    elif what == 'wtype' and p['finite']:
        q['wtype'] = rng.choice([x for x in WT if x != p['wtype']])
    elif what == 'maxw' and p['finite']:
        q['maxw'] = p['maxw'] + 1
    elif what == 'nproj' and p['sparse']:
        q['nproj'] = p['nproj'] + 1
    elif what == 'sparse' and len(p['sparse']) > 1:
        q['sparse'] = p['sparse'][1:]
    c = dict(BASE, op='equal', want=p == q, given=f'{what} {p}')
    try:
        a, b = construct(p, mp), construct(q, mp)
        if what == 'pickle':
            b = pickle.loads(pickle.dumps(b))
        c['b'] = (a == b) and not (a != b)
        if bool(a == b) != bool(b == a):
            c['error'] = 'equality is not symmetric'
    except Exception as x:
        c['error'] = f'{type(x).__name__}: {x}'
    return c


def run(ck):
    ck.load_core()
    sys.set_int_max_str_digits(0)
    ck.model_check('MCCost', 'SPECIFICATION Spec\nCONSTANTS N = {} D = 3 C = {}\nINVARIANTS Monotone Capped Product Bounds Small\n'
                   'CHECK_DEADLOCK FALSE\n'.format(*ck.size((3, 4), (4, 6))), workers=4, timeout=3000)
    rng = ck.rng
    cases = models(rng)
    for _ in range(ck.size(1500, 8000)):
        cases += answers(rng, model(rng))
    cases += [equal(rng) for _ in range(ck.size(600, 3000))]
    ck.events += len(cases)
    ck.check_cases('CostTrace', cases, lambda c, k: f'{c["op"]} A={c["A"]} B={c["B"]} slices={c["sl"]} x={c["x"]} {c["error"]} {c.get("given", "")}')
    ck.sample(cases[-1])
    ck.extra['cases'] = {op: sum(c['op'] == op for c in cases) for op in sorted({c['op'] for c in cases})}
    ck.assumptions += ['widths are compared within 1e-5 (float32) or 1e-12 relative', 'costs beyond the precision of their type within 2^8 units of its last bit']
