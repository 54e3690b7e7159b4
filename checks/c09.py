import pickle

from harness import netgen, optrun
from harness.names import hushed, loud


@hushed
def case(rng, net, path, out, names, exchanges):
    ts, d, outs = net
    from tnco.ctree import ContractionTree, traverse_tree
    order = sorted(d)
    mp = {x: (rng.choice([f'i{x}', ('q', x), x * 7]) if names else x) for x in order}
    ids = {mp[x]: i + 1 for i, x in enumerate(order)}
    tsn = [[mp[x] for x in xs] for xs in ts]
    dn = {mp[x]: v for x, v in d.items()}
    on = [mp[x] for x in outs]
    c = dict(net=dict(ts=[[ids[x] for x in xs] for xs in tsn], dims=[d[x] for x in order], out=[ids[x] for x in on]),
             path=[[a + 1, b + 1] for a, b in path], hasout=out, refused=False, error='', t={}, xs=[], dims=[], root=[],
             all=[], width=0, order=[], same=True, steps=[])
    if not out:
        c['net']['out'] = []
    I = lambda xs: sorted(ids[x] for x in xs)
    kw = dict(output_inds=on) if out else {}
    if len(set(d.values())) == 1 and rng.random() < .4:
        dn = next(iter(d.values()))   # one dimension for all
    elif rng.random() < .2:
        dn['unused'] = 7
    form = rng.choice([list, iter, tuple])
    make = lambda p: ContractionTree(form(p), form(tsn), dn, **kw, **loud(rng))
    try:
        try:
            ct = make(path)
        except ValueError as e:
            c.update(refused=True, t=dict(par=[], c1=[], c2=[]), message=str(e))
            return c
        tree = lambda x: optrun.tree_of(x)
        seen = []
        traverse_tree(ct, seen.append, **loud(rng))
        cp = pickle.loads(pickle.dumps(ct))
        c.update(t=tree(ct), xs=[I(xs) for xs in ct.inds[:]], root=I(ct.output_inds()), all=I(ct.all_inds()),
                 dims=[ct.dims.get(mp[x], 0) for x in order], width=round(2 ** ct.max_width()),
                 order=[v + 1 for v in seen],
                 same=bool(cp == ct) and cp.path() == ct.path() and cp.inds[:] == ct.inds[:] and dict(cp.dims) == dict(ct.dims))

        def step(x):
            p = x.path()
            a = make(p)
            c['steps'].append(dict(t=tree(x), path=[[u + 1, v + 1] for u, v in p],
                                   again=dict(tree(a), xs=[I(xs) for xs in a.inds[:]])))
        step(ct)
        for _ in range(exchanges):
            for _ in range(rng.randint(1, 4)):
                ct.swap_with_nn(rng.randrange(len(ct.nodes)))
            if rng.random() < .3:
                # the pickled form checks the index sets, which exchanges alone leave behind
                q = make(ct.path())
                ct = pickle.loads(pickle.dumps(q))
            step(ct)
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def sub_path(rng, n, path):
    """The part of a path which leads to one of its intermediate tensors."""
    cur = [(v, (v,)) for v in range(n)]
    steps = []
    for k, (a, b) in enumerate(path):
        x, y = cur[a], cur[b]
        cur = [c for q, c in enumerate(cur) if q not in (a, b)] + [((x, y), x[1] + y[1])]
        steps.append(cur[-1])
    top = rng.choice(steps)
    pairs = []

    def walk(node):
        # node = (structure, leaves)
        if isinstance(node[0], tuple):
            walk(node[0][0])
            walk(node[0][1])
            pairs.append((node[0][0][1], node[0][1][1], node[1]))
    walk(top)
    lst = [(v,) for v in range(n)]
    out = []
    for x, y, z in pairs:
        a, b = lst.index(x), lst.index(y)
        out.append((a, b))
        lst = [c for q, c in enumerate(lst) if q not in (a, b)] + [z]
    return out


def run(ck):
    # complete paths over n tensors are the (2n-3)!! trees
    ck.model_check('MCPaths', 'SPECIFICATION Spec\nCONSTANT n = 5\nINVARIANTS Partition Symmetric\nCHECK_DEADLOCK FALSE\n')
    ck.model_check('MCPaths', 'SPECIFICATION Spec\nCONSTANT n = 4\nVIEW DoneView\nINVARIANTS Partition\nCHECK_DEADLOCK FALSE\n',
                   want=1 + 6 + 15 + 15, name='MCPaths(4, contractions)')
    ck.load_core()
    rng = ck.rng
    cases, info = [], []
    # all complete paths of up to four tensors
    def all_paths(n):
        if n == 1:
            yield []
            return
        for a in range(n):
            for b in range(n):
                if a != b:
                    for p in all_paths(n - 1):
                        yield [(a, b)] + p
    for n in (2, 3) if ck.quick else (2, 3, 4):
        for path in all_paths(n):
            for _ in range(3):
                net = netgen.gen_net(rng, n, dims=(1, 2, 3), p_dangle=rng.choice([0, .5]))
                info.append((net, path, True, False, 1))
    for _ in range(ck.size(2000, 6000)):
        n = rng.randint(2, 9)
        net = netgen.gen_net(rng, n, dims=rng.choice([(2,), (1, 2, 3), (2, 5)]), p_hyper=rng.choice([0, .3, .6]),
                             p_dangle=rng.choice([0, .5]))
        path = netgen.random_path(rng, n)
        r = rng.random()
        if r < .1:
            # stops half-way: refused unless the touched tensors became one
            path = path[:rng.randint(1, len(path))]
        elif r < .5:
            # keep one intermediate tensor: only some of the tensors are touched
            path = sub_path(rng, n, path)
        if rng.random() < .3:
            # numpy-style: positions in increasing order
            path = [tuple(sorted(p)) for p in path]
        info.append((net, path, rng.random() < .8, rng.random() < .5, rng.choice([0, 1, 2, 4])))
    for x in info:
        # partial paths may leave indices to tensors which are not touched
        net, path, out, names, ex = x
        cases.append(case(rng, net, path, out, names, ex))
    ck.events += sum(len(c['steps']) + 1 for c in cases)
    for c, k, clauses in ck.validate('PathTrace', cases):
        x = cases[c]
        ck.report(f'ts={x["net"]["ts"]} out={x["net"]["out"] if x["hasout"] else None} path={x["path"]}: {", ".join(clauses)} '
                  f'{x["error"]} {x.get("message", "")}', x, clauses=clauses, module='PathTrace')
    ck.sample(cases[-1])
