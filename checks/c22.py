"""Ordered frozen sets against spec/Sets.tla."""
import copy
import operator
import pickle
from fractions import Fraction

METHODS = ['union', 'intersection', 'difference', 'symmetric_difference']
OPERATORS = dict(union=operator.or_, intersection=operator.and_, difference=operator.sub, symmetric_difference=operator.xor)
COMPARE = ['lt', 'le', 'gt', 'ge', 'eq', 'ne']
MIRROR = dict(lt='gt', le='ge', gt='lt', ge='le', eq='eq', ne='ne')
STYLES = [
    lambda v: [v, float(v), Fraction(v), complex(v)] + [bool(v)] * (v in (0, 1)),
    lambda v: [f'x{v}'],
    lambda v: [(v, 'a'), (float(v), 'a'), (Fraction(v), 'a')],
    lambda v: [v * 8, v * 8.0],                     # colliding hash slots
    lambda v: [frozenset([v]), frozenset([v, float(v)])],
    lambda v: [[v, f'q{v}', None, (v,), -v - 10][v % 5]],
]


class Values:
    """Elements and the pairs <<value, which of the equal ones>> that stand for them."""

    def __init__(self, rng, m):
        self.style = rng.randrange(len(STYLES))
        self.objs = [list(STYLES[self.style](v)) for v in range(m)]
        self.ids = {id(x): [v, r] for v, xs in enumerate(self.objs) for r, x in enumerate(xs)}
        self.rng = rng
        self.m = m

    def draw(self, n):
        return [self.rng.choice(self.objs[self.rng.randrange(self.m)]) for _ in range(n)]

    def enc(self, xs):
        return [self.ids.get(id(x)) or [-1, -1] for x in xs]


def same_type(vals, x):
    """Small ints and interned objects are shared; everything else is told apart by identity."""
    return x


def view(vals, s):
    from tnco.ordered_frozenset import OrderedFrozenSet
    xs = list(s)
    ok = True
    try:
        r = repr(s)
        if vals.style in (0, 3, 1) and not any(isinstance(x, complex) for x in xs):
            y = eval(r, dict(OrderedFrozenSet=OrderedFrozenSet, Fraction=Fraction))
            ok = list(y) == xs and list(map(type, y)) == list(map(type, xs)) and str(s) == r
    except Exception:
        ok = False
    return dict(seq=vals.enc(xs), len=len(s), truth=bool(s), type=isinstance(s, OrderedFrozenSet),
                hash=hash(s) == hash(frozenset(xs)) and hash(s) == hash(s), repr=ok)


def other(rng, vals, pool):
    """An operand: another ordered set of the pool or an iterable; its elements in order of iteration."""
    r = rng.random()
    if r < .45:
        j = rng.randrange(len(pool))
        return pool[j], j + 1, []
    xs = vals.draw(rng.choice([0, 1, 2, 3, 5]))
    x = rng.choice([set, frozenset, set, frozenset, list, tuple, iter, dict.fromkeys])(xs)
    seq = xs if not isinstance(x, (set, frozenset, dict)) else list(x)
    return x, 0, vals.enc(seq)


def history(rng, length):
    from tnco.ordered_frozenset import OrderedFrozenSet as O
    vals = Values(rng, rng.choice([1, 2, 3, 5, 8]))
    pool, ev = [], []
    base = dict(i=0, j=0, lit=[], refused=False, error='', b=False, v=0, view={})
    for step in range(length + 2):
        e = dict(base)
        try:
            if step < 2 or rng.random() < .1:
                xs = vals.draw(rng.choice([0, 1, 2, 3, 4, 6, 9]))
                e.update(op='new', lit=vals.enc(xs))
                s = O(iter(xs)) if rng.random() < .5 else (O(xs) if xs or rng.random() < .5 else O())
                e['view'] = view(vals, s)
                pool.append(s)
                ev.append(e)
                continue
            i = rng.randrange(len(pool))
            a = pool[i]
            e['i'] = i + 1
            r = rng.random()
            if r < .35:
                b, e['j'], e['lit'] = other(rng, vals, pool)
                e['op'] = rng.choice(METHODS)
                if isinstance(b, (O, set, frozenset)) and rng.random() < .6:
                    s = OPERATORS[e['op']](a, b)
                else:
                    s = getattr(a, e['op'])(b)
                e['view'] = view(vals, s)
                pool.append(s)
            elif r < .5:
                b, e['j'], e['lit'] = other(rng, vals, pool)
                e['op'] = rng.choice(['isdisjoint', 'issubset', 'issuperset'])
                e['b'] = bool(getattr(a, e['op'])(b))
            elif r < .75:
                b, e['j'], e['lit'] = other(rng, vals, pool)
                e['op'] = rng.choice(COMPARE)
                if not isinstance(b, (O, set, frozenset)):
                    b = rng.choice([set, frozenset])(b)
                if isinstance(b, O) or rng.random() < .5:
                    e['b'] = bool(getattr(operator, e['op'])(a, b))
                else:
                    e['b'] = bool(getattr(operator, MIRROR[e['op']])(b, a))
            elif r < .8:
                x = vals.draw(1)[0]
                e.update(op='in', v=vals.enc([x])[0][0], b=x in a)
            elif r < .86:
                j = rng.randrange(len(pool))
                e.update(op='samehash', j=j + 1, b=hash(a) == hash(pool[j]) and {a: 1}.get(pool[j], 0) == 1)
            elif r < .93:
                how = rng.choice(['copy', 'remake', 'copy', 'deepcopy', 'pickle'])
                if how in ('pickle', 'deepcopy'):
                    # equal elements may be other objects afterwards
                    s = pickle.loads(pickle.dumps(a)) if how == 'pickle' else copy.deepcopy(a)
                    xs = list(s)
                    good = len(xs) == len(a) and all(x == y and type(x) is type(y) for x, y in zip(xs, a))
                    e.update(op='again', view=dict(view(vals, s), seq=vals.enc(a) if good else [[-1, -1]]))
                else:
                    s = a.copy() if how == 'copy' else O(a)
                    e.update(op=how, view=view(vals, s))
                    pool.append(s)
            else:
                e['op'] = 'refuse'
                b = rng.choice([[1, 2], (3,), 'ab', 5, None, {1: 2}])
                op = rng.choice([*OPERATORS.values(), operator.lt, operator.le, operator.gt, operator.ge])
                try:
                    op(a, b)
                except TypeError:
                    e['refused'] = True
        except Exception as x:
            e['error'] = f'{type(x).__name__}: {x}'
            e.setdefault('op', '?')
            ev.append(e)
            return dict(what='ordered', style=vals.style, ev=ev)
        ev.append(e)
    for i, s in enumerate(pool):
        ev.append(dict(base, op='again', i=i + 1, view=view(vals, s)))
    return dict(what='ordered', style=vals.style, ev=ev)


def run(ck):
    ck.load_core()
    ck.model_check('MCSets', 'SPECIFICATION Spec\nCONSTANTS V = {} R = {} L = {} N = {}\nINVARIANTS Distinct MakeLaw Members BitLaws\n'
                   'CHECK_DEADLOCK FALSE\n'.format(*ck.size((2, 2, 3, 3), (3, 2, 3, 4))), workers=4, timeout=3000)
    rng = ck.rng
    cases = [history(rng, rng.choice([2, 5, 10, 20, 40])) for _ in range(ck.size(6000, 20000))]
    ck.events += sum(len(c['ev']) for c in cases)
    ck.check_cases('SetTrace', cases, lambda c, k: f'ordered sets, style {c["style"]}, event {k} {c["ev"][k - 1]}'[:300])
    ck.sample(cases[0])
    ck.assumptions += ['elements are hashable, and equal elements have equal hashes']
