"""Trees as [par, c1, c2], links from 1, 0 = none."""
import itertools as its


def all_trees(n):
    """All ordered binary trees: leaves 1..n, inner nodes n+1.., root last."""
    N = 2 * n - 1
    out = []

    # choose the children of the inner nodes from the last one down
    def rec(inner, free, f):
        # inner: nodes which still need children (all distinct), free: nodes without a parent
        if not inner:
            if not free:
                out.append(f)
            return
        v, rest = inner[0], inner[1:]
        for a, b in its.permutations(sorted(free), 2):
            if v in (a, b):
                continue
            rec(rest, free - {a, b}, {**f, v: (a, b)})

    rec(list(range(N, n, -1)), frozenset(range(1, N)), {})
    res = []
    for f in out:
        par, c1, c2 = [0] * N, [0] * N, [0] * N
        for v, (a, b) in f.items():
            c1[v - 1], c2[v - 1] = a, b
            par[a - 1] = par[b - 1] = v
        # reachable from the root
        seen, todo = set(), [N]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if c1[v - 1]:
                todo += [c1[v - 1], c2[v - 1]]
        if len(seen) == N:
            res.append([par, c1, c2])
    return res


def random_tree(rng, n):
    """A random tree; inner nodes are numbered at random (the root is the last)."""
    N = 2 * n - 1
    par, c1, c2 = [0] * N, [0] * N, [0] * N
    ids = list(range(n + 1, N))
    rng.shuffle(ids)
    ids.append(N)
    free = list(range(1, n + 1))
    for v in ids if n > 1 else []:
        a, b = rng.sample(free, 2)
        free.remove(a)
        free.remove(b)
        free.append(v)
        c1[v - 1], c2[v - 1] = a, b
        par[a - 1] = par[b - 1] = v
    return [par, c1, c2]


def nodes(core, t):
    return [core.Node((a - 1, b - 1), p - 1) for p, a, b in zip(*t)]


def links(tree):
    """[par, c1, c2] of a tree of the code."""
    def link(x):
        return 0 if x is None or x < 0 else x + 1
    ns = tree.nodes
    return [[link(n.parent) for n in ns], [link(n.children[0]) for n in ns], [link(n.children[1]) for n in ns]]
