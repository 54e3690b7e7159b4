"""Random tensor networks, contraction paths and dimension maps."""
import math


def gen_net(rng, n, *, max_inds=None, dims=(2, 3, 4), p_hyper=.3, p_out=.3, connected=False, p_dangle=0., max_log2=26):
    """A network of n tensors: index sets, dims, output indices (every index used; p_dangle: of one tensor, not an output).

    The product of all dimensions stays below 2**max_log2 / (2 n).
    """
    while True:
        m = rng.randint(min(max(1, n - 1), max_inds or n), max_inds or (n + 4))
        ts = [[] for _ in range(n)]
        out, d = [], {}
        for x in range(1, m + 1):
            r = rng.random()
            if n == 1 or r < .15:
                k = 1
            elif r < .15 + p_hyper and n > 2:
                k = rng.randint(3, min(n, 5))
            else:
                k = 2
            k = min(k, n)
            for v in rng.sample(range(n), k):
                ts[v].append(x)
            if (k == 1 and rng.random() >= p_dangle) or rng.random() < p_out * .5:
                out.append(x)
            d[x] = rng.choice(dims)
        if connected:
            comp = components(ts)
            while len(comp) > 1:
                m += 1
                a, b = rng.sample(comp, 2)
                ts[rng.choice(a)].append(m)
                ts[rng.choice(b)].append(m)
                d[m] = rng.choice(dims)
                comp = components(ts)
        if max_log2 is not None and sum(math.log2(v) for v in d.values()) + math.log2(2 * n) > max_log2:
            continue
        for xs in ts:
            rng.shuffle(xs)
        return ts, d, out


def components(ts):
    left, out = set(range(len(ts))), []
    while left:
        c, todo = set(), [left.pop()]
        while todo:
            v = todo.pop()
            c.add(v)
            for u in list(left):
                if set(ts[u]) & set(ts[v]):
                    left.discard(u)
                    todo.append(u)
        out.append(sorted(c))
    return out


def random_path(rng, n):
    path = []
    while n > 1:
        path.append(tuple(rng.sample(range(n), 2)))
        n -= 1
    return path


def connected_path(rng, ts, out):
    """A random path which only contracts tensors sharing an index; None if stuck."""
    cur = [(frozenset([v]), frozenset(xs)) for v, xs in enumerate(ts)]
    path = []
    out = frozenset(out)
    while len(cur) > 1:
        ps = [(i, j) for i in range(len(cur)) for j in range(i) if cur[i][1] & cur[j][1]]
        if not ps:
            return None
        i, j = rng.choice(ps)
        lv = cur[i][0] | cur[j][0]
        inner = frozenset().union(*(ts[v] for v in lv))
        outer = frozenset().union(*(ts[v] for v in range(len(ts)) if v not in lv), frozenset())
        new = (lv, inner & (outer | out))
        path.append((i, j))
        cur = [c for q, c in enumerate(cur) if q not in (i, j)] + [new]
    return path


def factors(n):
    """The prime factors of n, in increasing order."""
    out, p = [], 2
    while n > 1:
        while n % p == 0:
            out.append(p)
            n //= p
        p += 1
    return out
