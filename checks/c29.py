"""Subscripts of contractions against spec/Subscripts.tla."""
import random

from harness import netgen
from harness.names import name_map


def case(seed):
    from tnco.utils import tensor as tensor_utils
    from tnco.utils import tn as tn_utils
    rng = random.Random(seed)
    pair = rng.random() < .3
    r = rng.random()
    if r < .1:
        m = 52 if pair else rng.choice([53, 200, 3000])
    else:
        m = rng.randint(1, 12)
    n = 2 if pair else rng.choice([0, 1, 2, 3, 6])
    X = list(range(1, m + 1))
    ts = [rng.sample(X, rng.randint(0, min(m, 6)) if m < 50 else m // max(1, n)) for _ in range(n)]
    if rng.random() < .1 and ts:
        ts[0] = ts[0] + ts[0][:1]
    used = sorted({x for t in ts for x in t}) or X
    out = rng.sample(used if rng.random() < .8 else X, rng.randint(0, min(4, len(used))))
    names, _ = name_map(rng, X)
    f = lambda q: [names[x] for x in q]
    how = lambda q: rng.choice([list, tuple, iter])(f(q))
    c = dict(kind='text', ts=ts, out=out, text=[], error='', ev=[])
    try:
        if pair:
            s = tensor_utils.get_einsum_subscripts(f(ts[0]), f(ts[1]), f(out))
        elif out or rng.random() < .5:
            s = tn_utils.get_einsum_subscripts(rng.choice([list, iter])([rng.choice([list, tuple])(f(t)) for t in ts]), how(out))
        else:
            s = tn_utils.get_einsum_subscripts([f(t) for t in ts])
        c['text'] = [ord(x) for x in s]
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def symbols(js):
    from tnco.utils.tn import get_symbol
    c = dict(kind='symbols', codes=[], error='', ev=[])
    try:
        got = [get_symbol(j) for j in js]
        assert all(isinstance(x, str) and len(x) == 1 for x in got), 'no single character'
        c['codes'] = [ord(x) for x in got]
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    ck.model_check('MCSubscripts', 'SPECIFICATION Spec\nINVARIANT Law\nCHECK_DEADLOCK FALSE\n', workers=4)
    ck.load_core()
    rng = ck.rng
    cases = ck.pmap(case, [f'{ck.seed}/{rng.random()}' for _ in range(ck.size(6000, 20000))], chunksize=50)
    # all symbols, and around the places where their numbering changes
    top = ck.size(70000, 1000000)
    lists = [list(range(a, min(top, a + 20000))) for a in range(0, top, 20000)]
    lists += [list(range(200)) + list(range(55000, 60000))] + [rng.sample(range(1100000), 3000) for _ in range(4)]
    cases += ck.pmap(symbols, lists)
    ck.events += sum(len(c.get('codes', ())) for c in cases) + len(cases)
    ck.check_cases('SubscriptTrace', cases, lambda c, k: f'{c["kind"]} {c.get("ts")} {c.get("out")} {"".join(map(chr, c["text"])) if "text" in c else c["codes"][:3]!r} {c["error"]}')
    ck.sample(cases[0])
    ck.assumptions += ['two-tensor subscripts are limited to 52 indices (the letters)']
