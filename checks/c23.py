"""Bitsets against spec/Sets.tla."""
import copy
import itertools as its
import operator
import pickle

OPS = {'and': operator.and_, 'or': operator.or_, 'xor': operator.xor, 'sub': operator.sub}
PRED = {x: getattr(operator, x) for x in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')}
PRED.update({x: (lambda a, b, x=x: getattr(a, x)(b)) for x in ('isdisjoint', 'issubset', 'issuperset')})
BASE = dict(i=0, j=0, p=0, n=-1, q=[], refused=False, error='', b=False, view={}, **{'from': ''})
REFUSED = (ValueError, TypeError, IndexError, OverflowError)


def view(b):
    seen = []
    b.visit(seen.append)
    return dict(n=len(b), pos=list(b.positions()), visit=seen, str=[int(x) for x in str(b)],
                list=[int(x) for x in b], count=b.count())


def new(rng, how, q, n):
    """One construction; (event, bitset or None)."""
    from tnco.bitset import Bitset
    e = dict(BASE, op='new', q=list(q), n=-1 if n is None else n, **{'from': how})
    try:
        if how == 'positions':
            give = rng.choice([list, tuple, iter, lambda x: map(int, x)])(q)
            b = Bitset(give, n) if rng.random() < .5 else Bitset(give, n=n)
        elif how == 'bits':
            s = ''.join({0: '0', 1: '1'}.get(x) or rng.choice('2ab -O') for x in q)
            b = Bitset(s) if n is None else Bitset(s, n)
        else:
            b = Bitset() if n is None else Bitset(n=n)
        e['view'] = view(b)
        return e, b
    except REFUSED:
        e['refused'] = True
    except Exception as x:
        e['error'] = f'{type(x).__name__}: {x}'
    return e, None


def apply(e, fn):
    """Result of an operation of the code under test (None if refused)."""
    try:
        return fn()
    except REFUSED:
        e['refused'] = True
    except Exception as x:
        e['error'] = f'{type(x).__name__}: {x}'


def on_pair(rng, pool, i, j, what):
    e = dict(BASE, op=what, i=i + 1, j=j + 1)
    a, b = pool[i], pool[j]
    if what in OPS:
        r = apply(e, lambda: OPS[what](a, b))
        if r is not None:
            e['view'] = view(r)
            pool.append(r)
    elif what in PRED:
        e['b'] = bool(apply(e, lambda: PRED[what](a, b)))
    else:
        fn = {'not': operator.invert, 'copy': copy.copy, 'deepcopy': copy.deepcopy,
              'pickle': lambda x: pickle.loads(pickle.dumps(x))}[what]
        r = apply(e, lambda: fn(a))
        if r is not None:
            e['view'] = view(r)
            pool.append(r)
    return e


def bit(pool, i, p):
    e = dict(BASE, op='get', i=i + 1, p=p)
    e['b'] = bool(apply(e, lambda: pool[i][p]))
    return e


def again(pool):
    return [dict(BASE, op='again', i=i + 1, view=view(b)) for i, b in enumerate(pool)]


def history(rng, sizes, length):
    pool, ev = [], []
    n = rng.choice(sizes)
    for step in range(length + 2):
        r = rng.random()
        if step < 2 or r < .15:
            m = n if rng.random() < .8 else rng.choice(sizes)
            how = rng.choice(['positions', 'positions', 'bits', 'nothing'] if step >= 2 else ['positions', 'bits'])
            if how == 'positions':
                q = rng.sample(range(m), rng.randint(0, m) if rng.random() < .7 else min(m, rng.randint(0, 3)))
                t = rng.random()
                if t < .3 and pool:         # next to a set of the pool
                    q = [p for p in pool[rng.randrange(len(pool))].positions() if p < m]
                    if q and rng.random() < .6:
                        q.pop(rng.choice([0, -1, rng.randrange(len(q))]))
                elif t < .5:                # blocks of positions
                    a, b = sorted(rng.choice([0, 1, 31, 32, 63, 64, 65, 127, 128, m - 1, m]) for _ in range(2))
                    q = list(range(min(a, m), min(b, m)))
                    rng.shuffle(q)
                if rng.random() < .15:
                    q.insert(rng.randint(0, len(q)), rng.choice([m, m + 1, m - 1, -1, m + 64, 0]))
                e, b = new(rng, how, q, None if rng.random() < .03 else rng.choice([m] * 20 + [-1 - m]))
                if e['n'] < 0 and not e['refused']:
                    e['n'] = -1
            elif how == 'bits':
                q = [rng.randint(0, 1) for _ in range(m)]
                if m and rng.random() < .1:
                    q[rng.randrange(m)] = 2
                e, b = new(rng, how, q, rng.choice([None, None, m, m, m, m + 1, max(0, m - 1)]))
            else:
                e, b = new(rng, how, [], rng.choice([None, 0, 1, n]))
            ev.append(e)
            if b is not None:
                pool.append(b)
            continue
        if not pool:
            continue
        i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
        if r < .35:
            m = len(pool[i])
            ev.append(bit(pool, i, rng.choice([0, 1, m - 1, m, m + 1, -1, 63, 64, rng.randint(0, m)])))
        else:
            ev.append(on_pair(rng, pool, i, j, rng.choice([*OPS] * 2 + [*PRED, 'not', 'not', 'copy', 'deepcopy', 'pickle'])))
    return dict(what='bits', ev=ev + again(pool))


def pair(rng, n, x, y):
    """All the operations on two given subsets."""
    pool, ev = [], []
    for s in (x, y):
        if rng.random() < .5:
            e, b = new(rng, 'positions', rng.sample(s, len(s)), n)
        else:
            e, b = new(rng, 'bits', [int(p in s) for p in range(n)], None)
        ev.append(e)
        if b is None:
            return dict(what='bits', ev=ev)
        pool.append(b)
    ev += [on_pair(rng, pool, 0, 1, w) for w in [*OPS, *PRED, 'not', 'pickle']]
    ev += [bit(pool, 0, p) for p in range(n + 1)]
    return dict(what='bits', ev=ev + again(pool))


def near(rng, q):
    """Almost all of q, or its part on one side of a word boundary."""
    q = list(q)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        if q:
            q.pop(rng.choice([0, -1, rng.randrange(len(q))]))
    if rng.random() < .3:
        b = rng.choice([32, 64, 128])
        q = [p for p in q if (p < b) == (rng.random() < .9)] if rng.random() < .3 else [p for p in q if p < b] or q
    return q


def run(ck):
    ck.load_core()
    ck.model_check('MCSets', 'SPECIFICATION Spec\nCONSTANTS V = {} R = {} L = {} N = {}\nINVARIANTS Distinct MakeLaw Members BitLaws\n'
                   'CHECK_DEADLOCK FALSE\n'.format(*ck.size((2, 2, 2, 4), (2, 2, 2, 5))), workers=4, timeout=3000)
    rng = ck.rng
    cases = []
    for n in range(ck.size(4, 6)):
        subs = [list(s) for m in range(n + 1) for s in its.combinations(range(n), m)]
        cases += [pair(rng, n, x, y) for x in subs for y in subs]
    sizes = [0, 1, 2, 3, 5, 8, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129]
    cases += [history(rng, sizes, rng.choice([5, 10, 20])) for _ in range(ck.size(2000, 8000))]
    cases += [history(rng, [191, 192, 193, 256, 257, 320], 6) for _ in range(ck.size(80, 400))]
    for n in [31, 32, 33, 63, 64, 65, 127, 128, 129]:
        for _ in range(ck.size(24, 60)):
            x = near(rng, range(n))
            y = near(rng, x) if rng.random() < .7 else near(rng, range(n))
            cases.append(pair(rng, n, *rng.sample([x, y], 2)))
    ck.events += sum(len(c['ev']) for c in cases)
    ck.check_cases('SetTrace', cases, lambda c, k: f'bitsets, event {k} {c["ev"][k - 1]}'[:300])
    ck.sample(cases[0])
    ck.assumptions += ['bitsets are not hashable']
