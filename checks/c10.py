import itertools as its
import pickle

from harness import trees


def accepted(core, t):
    try:
        tr = core.Tree(trees.nodes(core, t))
    except (ValueError, TypeError):
        return False
    # what is accepted reports itself as valid, and is what was given
    return (bool(tr.is_valid()) and trees.links(tr) == t and pickle.loads(pickle.dumps(tr)) == tr
            and len(tr) == len(t[0]))


def mutants(rng, t, k):
    """t with k links changed."""
    N = len(t[0])
    m = [list(x) for x in t]
    for _ in range(k):
        m[rng.randrange(3)][rng.randrange(N)] = rng.randint(0, N + 1)
    return m


def structured(rng, t):
    """Changes which keep links locally consistent: cycles, forests, shared children, other numberings."""
    N = len(t[0])
    par, c1, c2 = [list(x) for x in t]
    r = rng.random()
    if r < .35:
        # exchange the children (or whole positions) of two nodes, consistently
        a, b = rng.randrange(N), rng.randrange(N)
        x, y = rng.choice([(c1, c1), (c1, c2), (c2, c2)])
        x[a], y[b] = y[b], x[a]
        for v in range(N):
            for c in (c1[v], c2[v]):
                if 0 < c <= N:
                    par[c - 1] = v + 1
    elif r < .7:
        # rename nodes
        p = list(range(1, N + 1))
        if rng.random() < .5:
            i, j = rng.randrange(N), rng.randrange(N)
            p[i], p[j] = p[j], p[i]
        else:
            rng.shuffle(p)
        f = lambda v: p[v - 1] if v else 0
        n1, n2, np = [0] * N, [0] * N, [0] * N
        for v in range(1, N + 1):
            n1[f(v) - 1], n2[f(v) - 1], np[f(v) - 1] = f(c1[v - 1]), f(c2[v - 1]), f(par[v - 1])
        par, c1, c2 = np, n1, n2
    else:
        # two trees, the second one as a cycle or with its own root
        m = len(t[0])
        u = trees.random_tree(rng, rng.randint(1, 3))
        par, c1, c2 = [], [], []
        for (q, off) in ((u, 0), (t, len(u[0]))):
            par += [x + off if x else 0 for x in q[0]]
            c1 += [x + off if x else 0 for x in q[1]]
            c2 += [x + off if x else 0 for x in q[2]]
        # leaves first
        order = sorted(range(len(par)), key=lambda v: c1[v] > 0)
        pos = {v + 1: i + 1 for i, v in enumerate(order)}
        pos[0] = 0
        par, c1, c2 = ([pos[x[v]] for v in order] for x in (par, c1, c2))
        roots = [v for v in range(len(par)) if par[v] == 0]
        if rng.random() < .7 and len(roots) > 1:
            par[roots[0]] = rng.randint(1, len(par))
    return [par, c1, c2]


def cycle(rng):
    """A tree plus inner nodes in a cycle with consistent links."""
    n = rng.randint(1, 3)
    t = trees.random_tree(rng, n)
    N = len(t[0])
    k = rng.randint(1, 3)
    # k inner nodes in a cycle, each with one leaf: all links agree
    leaves = list(range(N + 1, N + k + 1))
    inner = list(range(N + k + 1, N + 2 * k + 1))
    par = t[0] + [0] * 2 * k
    c1 = t[1] + [0] * 2 * k
    c2 = t[2] + [0] * 2 * k
    for i in range(k):
        v, w = inner[i], inner[(i + 1) % k]
        c1[v - 1], c2[v - 1] = leaves[i], w
        par[leaves[i] - 1] = v
        par[w - 1] = v
    # leaves first, root of the tree last
    order = sorted(range(len(par)), key=lambda v: (c1[v] > 0, v == N - 1))
    pos = {v + 1: i + 1 for i, v in enumerate(order)}
    pos[0] = 0
    return [[pos[x[v]] for v in order] for x in (par, c1, c2)]


def ctree_case(ck, core, t, xs, dims, share, ninds):
    try:
        c = core.ContractionTree(trees.nodes(core, t), [[x - 1 for x in s] for s in xs], dims, check_shared_inds=share)
        ok = bool(c.is_valid(check_shared_inds=share))
    except (ValueError, TypeError):
        ok = False
    return dict(what='ctree', t=t, xs=xs, ndims=-1 if isinstance(dims, int) else len(dims), ninds=ninds,
                positive=dims > 0 if isinstance(dims, int) else all(d > 0 for d in dims), share=share, ok=ok)


def run(ck):
    ck.model_check('MCTree', 'SPECIFICATION Spec\nCONSTANT n = 4\nINVARIANTS Valid\nCHECK_DEADLOCK FALSE\n')
    core = ck.load_core()
    rng = ck.rng
    cases = []
    # every list of three nodes
    pairs = [(0, 0)] + list(its.product((1, 2, 3), repeat=2))
    acc = []
    n = 0
    for ps in its.product(range(4), repeat=3):
        for cs in its.product(pairs, repeat=3):
            t = [list(ps), [c[0] for c in cs], [c[1] for c in cs]]
            n += 1
            if accepted(core, t):
                acc.append(t)
    ck.events += n
    cases.append(dict(what='domain', accepted=acc))
    # lists around trees
    base = [t for k in (1, 2, 3, 4) for t in trees.all_trees(k)]
    lists = [t for t in base]
    for t in base[:15]:
        N = len(t[0])
        for f, v, x in its.product(range(3), range(N), range(N + 2)):
            m = [list(y) for y in t]
            m[f][v] = x
            lists.append(m)
    for _ in range(ck.size(12000, 60000)):
        t = rng.choice(base) if rng.random() < .5 else trees.random_tree(rng, rng.randint(1, 9))
        r = rng.random()
        lists.append(mutants(rng, t, rng.choice([1, 2, 2, 3])) if r < .4 else structured(rng, t) if r < .85 else cycle(rng))
    cases += [dict(what='list', t=t, ok=accepted(core, t)) for t in lists]
    ck.events += len(lists)
    # index sets: all of them for two leaves and two indices, and for three leaves and one index
    ct = []
    subs = [[x for x in (1, 2) if m >> (x - 1) & 1] for m in range(4)]
    for t in trees.all_trees(2):
        for xs in its.product(subs, repeat=3):
            ninds = max([x for s in xs for x in s], default=0)
            for share in (False, True):
                ct.append(ctree_case(ck, core, t, list(xs), 2, share, ninds))
    for t in trees.all_trees(3):
        for xs in its.product([[], [1]], repeat=5):
            ninds = max([x for s in xs for x in s], default=0)
            for share in (False, True):
                ct.append(ctree_case(ck, core, t, list(xs), [3] * ninds, share, ninds))
    for _ in range(ck.size(7500, 30000)):
        t = trees.random_tree(rng, rng.randint(1, 5))
        N = len(t[0])
        m = rng.randint(0, 4)
        xs = [[] for _ in range(N)]
        order = []

        def fill(v):
            if t[1][v]:
                fill(t[1][v] - 1)
                fill(t[2][v] - 1)
                a, b = set(xs[t[1][v] - 1]), set(xs[t[2][v] - 1])
                xs[v] = sorted((a ^ b) | {x for x in a & b if rng.random() < .5})
            else:
                xs[v] = sorted(x for x in range(1, m + 1) if rng.random() < .6)
        fill(N - 1)
        if rng.random() < .6 and m:
            v, x = rng.randrange(N), rng.randint(1, m)
            xs[v] = sorted(set(xs[v]) ^ {x})
        if rng.random() < .1:
            xs = xs[:-1] if rng.random() < .5 else xs + [[]]
        ninds = max([x for s in xs for x in s], default=0)
        r = rng.random()
        dims = (rng.choice([1, 2, 3]) if r < .3 else [rng.choice([1, 2, 3]) for _ in range(ninds)] if r < .8
                else [rng.choice([0, 2, 2]) for _ in range(ninds)] if r < .87 else 0 if r < .9
                else [2] * rng.choice([ninds + 1, max(0, ninds - 1)]))
        if rng.random() < .15:
            t = mutants(rng, t, 1)
        ct.append(ctree_case(ck, core, t, xs, dims, rng.random() < .3, ninds))
    ck.events += len(ct)
    cases += ct
    for c, k, clauses in ck.validate('TreeTrace', cases):
        x = cases[c]
        ck.report(f'{x["what"]}: {", ".join(clauses)} { {k: v for k, v in x.items() if k != "accepted"} }', x,
                  clauses=clauses, module='TreeTrace')
    ck.sample(dict(lists=lists[-3:], ctrees=ct[-2:]))
    ck.extra['exhaustive_lists_of_three_nodes'] = n
