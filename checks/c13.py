import itertools as its

from harness import netgen
from harness.names import hushed, loud

P1 = lambda path: [[a + 1, b + 1] for a, b in path]


@hushed
def split_case(rng, n, path):
    from tnco.utils.tn import merge_contraction_paths as merge
    from tnco.utils.tn import split_contraction_path as split
    split, merge = (lambda *a, f=f, **kw: f(*a, **kw, **loud(rng)) for f in (split, merge))
    c = dict(kind='split', n=n, path=P1(path), error='', paths=[], comps=[], npaths=[], plain=[], back=[], full=[])
    give = lambda: iter(path) if rng.random() < .3 else list(path)
    try:
        a, cc = split(n, give(), return_connected_components=True)
        b, cc2 = split(n, give(), return_connected_components=True, normalize_paths=True)
        assert cc == cc2, 'components depend on normalization'
        d = split(n, give())
        c.update(paths=list(map(P1, a)), comps=[sorted(v + 1 for v in s) for s in cc], npaths=list(map(P1, b)),
                 plain=list(map(P1, d)), back=P1(merge(n, a if rng.random() < .5 else d, autocomplete=False)), full=P1(merge(n, d)))
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


@hushed
def merge_case(rng, n, paths):
    from tnco.utils.tn import merge_contraction_paths as merge
    c = dict(kind='merge', n=n, paths=list(map(P1, paths)), error='', refused=False, merged=[], full=[])
    try:
        try:
            give = lambda: (map(iter, paths) if rng.random() < .3 else [list(p) for p in paths])
            c['merged'] = P1(merge(n, give(), autocomplete=False, **loud(rng)))
            c['full'] = P1(merge(n, give(), **loud(rng)))
        except ValueError:
            c['refused'] = True
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def sub(rng, n, K):
    """A path over n tensors which contracts tensors of K only."""
    loc = list(range(n))
    mine = set(K)
    path = []
    new = n
    while len(mine) > 1 and rng.random() < .9:
        a, b = rng.sample(sorted(mine, key=str), 2)
        x, y = loc.index(a), loc.index(b)
        path.append((x, y))
        for z in sorted((x, y), reverse=True):
            loc.pop(z)
        loc.append(new)
        mine -= {a, b}
        mine.add(new)
        new += 1
    return path


def all_paths(n, stop=True):
    if stop or n == 1:
        yield []
    for a, b in its.permutations(range(n), 2):
        for p in all_paths(n - 1, stop) if n > 2 else [[]]:
            yield [(a, b)] + p


def run(ck):
    ck.model_check('MCPaths', 'SPECIFICATION Spec\nCONSTANT n = 5\nINVARIANTS Partition Symmetric SplitLaw\nCHECK_DEADLOCK FALSE\n')
    rng = ck.rng
    cases = []
    for n in (1, 2, 3, 4):
        ps = [p for p in all_paths(n)] if n > 1 else [[]]
        if ck.quick and n == 4:
            ps = rng.sample(ps, 100)
        cases += [split_case(rng, n, p) for p in ps]
    for _ in range(ck.size(500, 8000)):
        n = rng.randint(2, 14)
        p = netgen.random_path(rng, n)
        p = p[:rng.randint(0, len(p))]
        if rng.random() < .4:
            p = [tuple(sorted(x)) for x in p]
        cases.append(split_case(rng, n, p))
    for _ in range(ck.size(500, 8000)):
        n = rng.randint(2, 14)
        col = [rng.randrange(rng.randint(1, 4)) for _ in range(n)]
        groups = [[v for v in range(n) if col[v] == k] for k in range(max(col) + 1)]
        if rng.random() < .2:
            v = rng.randrange(n)
            for g in rng.sample(groups, min(2, len(groups))):
                if v not in g:
                    g.append(v)
        rng.shuffle(groups)
        cases.append(merge_case(rng, n, [sub(rng, n, g) for g in groups]))
    ck.events += sum(len(c.get('path', c.get('merged', ()))) for c in cases)
    for c, k, clauses in ck.validate('PathOpsTrace', cases):
        x = cases[c]
        ck.report(f'{x["kind"]} n={x["n"]} {x.get("path", x.get("paths"))}: {", ".join(clauses)} {x["error"]}',
                  x, clauses=clauses, module='PathOpsTrace')
    ck.sample(cases[-1])
