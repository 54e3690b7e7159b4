"""Pairs of optimizers or contraction trees living side by side, against spec/Equal.tla."""
import copy
import pickle
import random

from harness import netgen, optrun

EQUAL = ['', '', 'rep', 'rep']
TREE = ['dims', 'out', 'children', 'order', 'extra', 'where', 'name', 'path']
OPT = ['seed', 'maxnew', 'skip', 'share', 'max_width', 'cost_type', 'width_type', 'nproj', 'sparse', 'kind', 'sparseout']


def fresh(path, n):
    """A linear path in terms of numbers which never change."""
    cur, out = list(range(n)), []
    for x, y in path:
        out.append((cur[x], cur[y]))
        a, b = cur[x], cur[y]
        cur = [z for z in cur if z not in (a, b)] + [n + len(out) - 1]
    return out


def linear(path, n):
    cur, out = list(range(n)), []
    for j, (a, b) in enumerate(path):
        out.append((cur.index(a), cur.index(b)))
        cur = [z for z in cur if z not in (a, b)] + [n + j]
    return out


def put(s, pos, inds):
    """The same contraction with one more tensor, which is not contracted, before position pos."""
    n = len(s['ts'])
    ren = lambda v: v + (v >= pos)
    s['path'] = linear([(ren(a), ren(b)) for a, b in fresh(s['path'], n)], n + 1)
    s['ts'] = s['ts'][:pos] + [inds] + s['ts'][pos:]


def variant(rng, s, what):
    """Another description with the given difference (which may turn out to be none)."""
    q = copy.deepcopy(s)
    used = sorted({x for xs in q['ts'] for x in xs}, key=str)
    if what == 'rep':
        q['ts'] = [tuple(xs) for xs in q['ts']]
        q['out'] = rng.choice([tuple, frozenset])(q['out'])
        q['path'] = [list(p) for p in q['path']]
        d = set(q['dims'].values())
        if len(d) == 1 and rng.random() < .7:
            q['dims'] = d.pop()
        else:
            ks = list(q['dims'])
            rng.shuffle(ks)
            q['dims'] = {x: q['dims'][x] for x in ks}
    elif what == 'dims' and used:
        q['dims'][rng.choice(used)] += 1
    elif what in ('out', 'sparseout') and used:
        x = rng.choice(used)
        q['out'] = [y for y in q['out'] if y != x] if x in q['out'] else [*q['out'], x]
    elif what == 'children' and q['path']:
        j = rng.randrange(len(q['path']))
        q['path'][j] = q['path'][j][::-1]
    elif what == 'order':
        j = rng.randrange(len(q['ts']))
        q['ts'][j] = rng.sample(q['ts'][j], len(q['ts'][j]))
    elif what == 'extra':
        put(q, rng.randint(0, len(q['ts'])), [])
    elif what == 'where':
        pos = rng.randint(0, len(s['ts']))
        put(q, pos, [])
        put(s, rng.randint(0, len(s['ts'])), [])
    elif what == 'name' and used and not isinstance(q['dims'], int):
        x = rng.choice(used)
        f = lambda xs: ['new' if y == x else y for y in xs]
        q['ts'], q['out'], q['skip'], q['sparse'] = list(map(f, q['ts'])), f(q['out']), f(q['skip']), f(q['sparse'])
        q['dims'] = {('new' if y == x else y): v for y, v in q['dims'].items()}
    elif what == 'path':
        q['path'] = netgen.random_path(rng, len(q['ts']))
    elif what == 'seed':
        q['seed'] += 1
    elif what == 'maxnew':
        q['maxnew'] += 1
    elif what == 'skip' and used:
        x = rng.choice(used)
        q['skip'] = [y for y in q['skip'] if y != x] if x in q['skip'] else [*q['skip'], x]
    elif what == 'share':
        q['share'] = False
    elif what == 'max_width':
        q['max_width'] += rng.choice([.25, 1e-3])
    elif what == 'cost_type':
        q['cost_type'] = rng.choice(['float32', 'float64', 'float128', 'float1024'])
    elif what == 'width_type':
        q['width_type'] = rng.choice(['float32', 'float64', 'float128'])
    elif what == 'nproj' and q['sparse']:
        q['nproj'] += 1
    elif what == 'sparse' and q['sparse']:
        q['sparse'] = q['sparse'][1:]
        if not q['sparse']:
            q['nproj'] = 0
    return q


def tree(ct, s):
    return repr([len(s['ts']), [(n.parent, tuple(n.children)) for n in ct.nodes], [sorted(map(repr, xs)) for xs in ct.inds[:]],
                 [(repr(k), int(v)) for k, v in ct.dims.items()], [tuple(p) for p in ct.path()]])


def names(xs):
    return repr(sorted(map(repr, xs or ())))


def optimizer(opt, s):
    m = opt.cmodel
    fin = hasattr(opt, 'slices')
    return [tree(opt.ctree, s), tree(opt.min_ctree, s), repr(fin), str(opt.prng_state), repr(bool(opt.disable_shared_inds)),
            f'{m.cost_type} {names(m.sparse_inds)} {m.n_projs}',
            *([f'{m.width_type} {float(m.max_width)!r}', names(opt.slices), names(opt.min_slices), names(opt.skip_slices), repr(s['maxnew'])]
              if fin else [])]


def case(seed):
    from tnco.ctree import ContractionTree
    rng = random.Random(seed)
    kind = rng.choice(['tree', 'optimizer', 'optimizer'])
    finite = rng.random() < .6
    what = rng.choice(EQUAL + TREE if kind == 'tree' else EQUAL + EQUAL + TREE + OPT)
    while True:
        s = optrun.random_spec(rng, finite=finite, n=rng.randint(2, 6), dims=rng.choice([(2,), (2,), (2, 3)]), share=rng.random() < .3)
        if s['sparse'] or what not in ('nproj', 'sparse', 'sparseout'):
            break
    if rng.random() < .3:
        # a tensor without indices which is not contracted
        put(s, rng.randint(0, len(s['ts'])), [])
    t = variant(rng, s, what)
    c = dict(kind=kind, what=what, ev=[], given=repr((s, t)))
    ranks = {}

    def make(s):
        if kind == 'tree':
            return ContractionTree(s['path'], s['ts'], s['dims'], output_inds=s['out'])
        if what == 'kind' and s is t:
            return optrun.Run({**s, 'finite': not s['finite'], 'max_width': s['max_width'] or 50., 'maxnew': 0}).build()
        return optrun.Run(s).build()

    try:
        a, b = make(s), make(t)
    except (ValueError, RuntimeError):
        return None   # what is accepted is not the matter here
    sa, sb = s, t

    def note(op):
        pa, pb = ([tree(x, y)] if kind == 'tree' else optimizer(x, y) for x, y in ((a, sa), (b, sb)))
        r = [a == b, b == a, a != b, b != a, a == a, b == b]
        assert all(isinstance(x, bool) for x in r), r
        c['ev'].append(dict(op=op, r=r, a=[ranks.setdefault((j, x), len(ranks)) for j, x in enumerate(pa)],
                            b=[ranks.setdefault((j, x), len(ranks)) for j, x in enumerate(pb)]))

    def act(x, how):
        if kind == 'tree':
            x.swap_with_nn(how[0] % len(x))
        elif hasattr(x, 'slices'):
            x.update(how[1], update_slices=how[2])
        else:
            x.update(how[1])

    try:
        note('start')
        moved = False
        for _ in range(rng.randint(1, 6)):
            op = rng.choice(['both', 'both', 'one', 'copy', 'look'])
            if op == 'copy' and moved and kind == 'tree':
                continue   # index sets are left behind by exchanges of a tree alone
            how = rng.randrange(100), optrun.Run(s).prob(rng.choice(['base', 'greedy', 'mh']), 1.), rng.random() < .5
            if op in ('both', 'one'):
                if kind != 'tree' and (str(a.cmodel.cost_type) != s['cost_type'] or str(b.cmodel.cost_type) != s['cost_type']):
                    continue   # probabilities belong to a type of costs
                moved = True
                for x in [a, b][:1 + (op == 'both')]:
                    for _ in range(rng.choice([1, 1, 4]) if kind != 'tree' and op == 'one' else 1):
                        act(x, how)
            elif op == 'copy':
                b = pickle.loads(pickle.dumps(a)) if rng.random() < .6 else copy.deepcopy(a) if rng.random() < .6 else copy.copy(a)
                sb = sa
            else:
                repr(a), repr(b), a.path() if kind == 'tree' else a.is_valid(), len(pickle.dumps(b)) if not (kind == 'tree' and moved) else 0
            note(op)
    except Exception as e:
        c['ev'].append(dict(op='error', what=f'{type(e).__name__}: {e}'))
    return c


def run(ck):
    ck.model_check('MCEqual', 'SPECIFICATION Spec\nCONSTANTS K = {} M = 1\nINVARIANTS AnswersAreRight OthersAreWrong LivesAreRight\n'
                   'CHECK_DEADLOCK FALSE\n'.format(ck.size(2, 3)), workers=4)
    ck.load_core()
    cases = [c for c in ck.pmap(case, [f'{ck.seed}/{ck.rng.random()}' for _ in range(ck.size(2000, 20000))], chunksize=10) if c]
    ck.events += sum(len(c['ev']) for c in cases)
    for c, k, clauses in ck.validate('EqualTrace', cases):
        x = cases[c]
        ck.report(f'{x["kind"]} {x["what"]!r} event {k} {x["ev"][k - 1]}: {", ".join(clauses)} given {x["given"]}', x, event=k, clauses=clauses,
                  module='EqualTrace')
    ck.sample({**cases[-1], 'given': cases[-1]['given'][:400]})
    ck.extra['cases'] = {w or 'none': sum(c['what'] == w for c in cases) for w in sorted({c['what'] for c in cases})}
    ck.extra['pairs'] = dict(equal=sum(e['r'][0] for c in cases for e in c['ev'] if 'r' in e), different=sum(not e['r'][0] for c in cases for e in c['ev'] if 'r' in e))
