"""Dumping results and reading files against spec/Files.tla."""
import bz2
import gzip
import json
import os
import pickle
import shutil
import tempfile
from decimal import Decimal

import numpy as np

from harness import netgen

NAMES = ['plain', 'x.json', 'x.gzip', 'x.bz2', 'x.pkl.gzip', 'x.GZIP', 'x.gz', 'x.bz2.txt', 'x y.json.bz2', 'gzip']
TAGS = [None, {}, {'name': 'a'}, {'x': {'name': 1}, 'y': None}, {'l': [1, 2.5, 'µ"\n']}]


def payload(rng):
    """A network with results."""
    from tnco.app import Tensor, TensorNetwork
    from tnco.app.finite_width import sa as fin
    from tnco.app.infinite_memory import sa as inf
    ts, d, out = netgen.gen_net(rng, rng.randint(1, 4), max_inds=5, max_log2=20)
    style = rng.choice([lambda x: x, lambda x: f'i{x}', lambda x: f'é {x}'])
    dt = rng.choice(['none', 'float', 'int', 'complex', 'float32', 'mixed'])
    T = []
    for xs in ts:
        dims = [d[x] for x in xs]
        k = rng.choice(['none', 'float', 'complex']) if dt == 'mixed' else dt
        a = None
        if k != 'none':
            a = np.array([rng.choice([0, 1, -1, rng.gauss(0, 1), rng.gauss(0, 1) * 10**rng.randint(-20, 20)]) for _ in range(int(np.prod(dims, dtype=int)))]).reshape(dims)
            a = a.astype(k if k != 'complex' else complex)
            if k == 'complex':
                a = a * rng.choice([1, 1j, 1 - 2j, .1 + .3j])
        T.append(Tensor(map(style, xs), dims=dims, array=a, tags=rng.choice(TAGS)))
    inds = sorted({style(x) for xs in ts for x in xs}, key=str)
    pick = lambda: frozenset(rng.sample(inds, rng.randint(0, min(3, len(inds)))))
    tn = TensorNetwork(T, output_inds=map(style, out), sparse_inds=pick() if rng.random() < .4 else None,
                       tags=rng.choice([None, {'fuse_path': [(0, 1)]}]))
    res = []
    for _ in range(rng.randint(0, 3)):
        paths = [[(rng.randint(0, 5), rng.randint(0, 5)) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(1, 3))]
        num = lambda: rng.choice([Decimal(rng.randint(0, 10**9)), Decimal('1.23457e+40'), Decimal(0), float(rng.random()), 12])
        kw = dict(cost=num(), runtime_s=rng.random(), path=sum(paths, []), disconnected_costs=[num() for _ in paths], disconnected_paths=paths)
        if rng.random() < .5:
            res.append(fin.ContractionResults(**kw, disconnected_slices=[pick() for _ in paths], slices=pick()))
        else:
            res.append(inf.ContractionResults(**kw))
    return tn, res


def num(x):
    if isinstance(x, str):
        return complex(x.replace(' + ', '+', 1).replace('+-', '-').replace(' ', '')) if 'j' in x else Decimal(x)
    return x


def arr(x):
    return [arr(y) for y in x] if isinstance(x, list) else num(x)


def same_tensor(t, o):
    return (t.inds == tuple(o['inds']) and t.dims == tuple(o['dims']) and t.tags == o['tags'] and set(o) == {'inds', 'dims', 'array', 'tags'} and
            ((t.array is None and o['array'] is None) or
             (t.array is not None and o['array'] is not None and np.array_equal(np.array(arr(o['array'])).reshape(t.dims), t.array))))


def same_tn(tn, o):
    return (len(o['tensors']) == len(tn) and all(same_tensor(t, x) for t, x in zip(tn.tensors, o['tensors'])) and
            len(o['output_inds']) == len(tn.output_inds) and frozenset(o['output_inds']) == tn.output_inds and
            len(o['sparse_inds']) == len(tn.sparse_inds) and frozenset(o['sparse_inds']) == tn.sparse_inds)


def tup(p):
    return [tuple(x) for x in p]


def same_res(r, o):
    if hasattr(r, 'slices'):
        if not (frozenset(o['slices']) == r.slices and [frozenset(x) for x in o['disconnected_slices']] == r.disconnected_slices):
            return False
    return (Decimal(o['cost']) == r.cost and o['runtime_s'] == r.runtime_s and tup(o['path']) == r.path and
            [tup(p) for p in o['disconnected_paths']] == r.disconnected_paths and
            [Decimal(x) for x in o['disconnected_costs']] == list(r.disconnected_costs))


def equal_raw(p, o):
    """A network and results read back from a pickle."""
    try:
        return _equal_raw(p, o)
    except Exception:
        return False


def _equal_raw(p, o):
    tn, res = p
    if not (isinstance(o, tuple) and len(o) == 2 and o[0] == tn and len(o[1]) == len(res) and o[0].ts_tags == tn.ts_tags):
        return False
    for t, u in zip(tn.tensors, o[0].tensors):
        if t.array is not None and not (np.array_equal(t.array, u.array) and t.array.dtype == u.array.dtype):
            return False
    return all(type(r) is type(s) and vars(r) == vars(s) for r, s in zip(res, o[1]))


def equal_json(p, o):
    tn, res = p
    return isinstance(o, dict) and set(o) == {'tn', 'res'} and same_tn(tn, o['tn']) and len(o['res']) == len(res) and \
        all(same_res(r, x) for r, x in zip(res, o['res']))


def which(ps, o, fmt):
    """The payload which was read (0: none of them)."""
    for j, p in enumerate(ps):
        try:
            if (equal_json if fmt == 'json' else equal_raw)(p, o):
                return j + 1
        except Exception:
            pass
    return 0


def look(path, ps):
    from tnco.app.app import load_file
    if not os.path.exists(path):
        return dict(codec='absent', fmt='absent', p=0, loaded=['absent', 0])
    data = open(path, 'rb').read()
    codec = 'none'
    for n, f in (('gzip', gzip.decompress), ('bz2', bz2.decompress)):
        try:
            data, codec = f(data), n
            break
        except Exception:
            pass
    fmt, p = 'unknown', 0
    try:
        p = which(ps, json.loads(data.decode()), 'json')
        fmt = 'json'
    except ValueError:
        try:
            p = which(ps, pickle.loads(data), 'raw')
            fmt = 'raw'
        except Exception:
            pass
    try:
        o = load_file(path)
        loaded = ['binary', which(ps, pickle.loads(o), 'raw')] if isinstance(o, bytes) else ['text', 0] if isinstance(o, str) else ['json', which(ps, o, 'json')]
    except Exception as e:
        loaded = [f'{type(e).__name__}: {e}', 0]
    return dict(codec=codec, fmt=fmt, p=p, loaded=loaded)


def history(args):
    import random
    seed, work = args
    rng = random.Random(seed)
    from tnco.app import Optimizer
    from tnco.app.app import dump_results
    d = tempfile.mkdtemp(dir=work)
    ps = [payload(rng) for _ in range(3)]
    ps = [p for j, p in enumerate(ps) if not any(equal_raw(q, p) or same(q, p) for q in ps[:j])]
    names = rng.sample(NAMES, rng.randint(1, 3))
    bad = rng.random() < .15
    if bad:
        names.append('bad\0name')
    files = [os.path.join(d, n) for n in names]
    c = dict(kind='history', names=names, valid=['\0' not in n for n in names], parts=[n.split('.') for n in names], ev=[])
    seen = [look(f, ps) if '\0' not in f else dict(codec='absent', fmt='absent', p=0, loaded=['absent', 0]) for f in files]
    for _ in range(rng.randint(1, 6)):
        e = dict(name=rng.choice([0, *range(1, len(names) + 1), *range(1, len(names) + 1)]), p=0 if rng.random() < .06 else rng.randint(1, len(ps)),
                 fmt=rng.choice(['', 'raw', 'json', 'json'] * 4 + ['xml']), comp=rng.choice(['auto', 'none', 'gzip', 'bz2'] * 4 + ['zip', 'json']),
                 ow=rng.random() < .5, check=False, refused='', ret=['none', 0], error='')
        kw = dict(output_format=rng.choice([e['fmt'], e['fmt'].upper()]) if e['fmt'] else None)
        if e['comp'] != 'auto' or rng.random() < .5:
            kw['output_compression'] = rng.choice([e['comp'], e['comp'].capitalize()])
        if e['ow'] or rng.random() < .5:
            kw['overwrite_output_file'] = e['ow']
        if e['name']:
            kw['output_filename'] = files[e['name'] - 1]
        elif rng.random() < .5:
            kw['output_filename'] = None
        try:
            try:
                if rng.random() < .2:
                    e['check'] = True
                    Optimizer(max_width=rng.choice([None, 4.]), **kw)
                else:
                    r = dump_results(*(unwritable(rng, *ps[rng.randrange(len(ps))]) if e['p'] == 0 else ps[e['p'] - 1]), **kw)
                    if r is not None and e['p'] == 0:
                        e['ret'] = ['raw', 0]
                    elif r is not None:
                        e['ret'] = ['json', which(ps, json.loads(r), 'json')] if isinstance(r, str) else ['raw', which(ps, r, 'raw')]
            except (ValueError, OSError) as x:
                e['refused'] = type(x).__name__
            except (pickle.PicklingError, AttributeError, TypeError):
                if e['p'] or e['check']:
                    raise
                e['refused'] = 'data'
        except Exception as x:
            e['error'] = f'{type(x).__name__}: {x}'
        e['files'] = [look(f, ps) if '\0' not in f else s for f, s in zip(files, seen)]
        c['ev'].append(e)
    if set(os.listdir(d)) - set(names):
        c['ev'][-1]['error'] += 'another file was written'
    shutil.rmtree(d)
    return c


def unwritable(rng, tn, res):
    """The same with something in it which cannot be written down."""
    from tnco.app import Tensor, TensorNetwork
    t = tn.tensors[-1]
    return TensorNetwork([*tn.tensors[:-1], Tensor(t.inds, dims=t.dims, array=t.array, tags={'f': lambda: 0})],
                         output_inds=tn.output_inds, sparse_inds=tn.sparse_inds or None), res


def same(q, p):
    try:
        return equal_json(q, json.loads('{{"tn": {}, "res": [{}]}}'.format(p[0].to_json(), ', '.join(r.to_json() for r in p[1]))))
    except Exception:
        return False


TEXT = ['', 'a b\nc', 'BZ', 'BZh', 'BZh9 is how compressed files begin', 'BZh91AY', '[1, 2', 'nul', '\x1f', 'ünïcode ☃', '# 2 a b\n2 a b\n', '{1: 2}', "{'a': 1}", '\x00']
JSONS = ['{}', '[]', '0', 'null', 'true', '"BZh9"', '[[2, "a", "b"]]', ' {"a": [1, 2.5, "é"]}\n', '[1e400]', '-0.5']
BIN = [b'\xff', b'\x80\x04K\x01.', b'BZ\xff', b'BZh9\xff\xff', b'BZh91AY\xff', b'\xffBZh91AY&SY', b'PK\x03\x04\xff', b'\xef\xbb\xff', b'\x1f\xff\x8b']


def loading(args):
    import random
    seed, work = args
    rng = random.Random(seed)
    from tnco.app.app import load_file
    kind = rng.choice(['text', 'json', 'binary'] * 6 + ['missing', 'invalid'])
    c = dict(kind='load', kind0=kind, layers=[], refused='', got='', same=False, error='', ev=[])
    d = tempfile.mkdtemp(dir=work)
    f = os.path.join(d, rng.choice(['x', 'x.gz', 'x.bz2', 'x.json', 'x.txt']))
    try:
        if kind in ('missing', 'invalid'):
            if kind == 'invalid':
                f += '\0'
            try:
                load_file(f)
            except (OSError, ValueError) as x:
                c['refused'] = type(x).__name__
            return c
        if kind == 'text':
            want = rng.choice(TEXT) if rng.random() < .8 else ''.join(rng.choice('BZh91AY&S \n\x17rE8P') for _ in range(rng.randint(0, 12)))
            try:
                json.loads(want)
                want = 'x' + want
            except ValueError:
                pass
            data = want.encode()
        elif kind == 'json':
            data = rng.choice(JSONS).encode()
            want = json.loads(data)
        else:
            want = data = rng.choice(BIN) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 1000])))
        c['what'] = repr(want)[:60]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            n = rng.choice(['gzip', 'bz2'])
            c['layers'].append(n)
            data = gzip.compress(data, rng.choice([0, 1, 9])) if n == 'gzip' else bz2.compress(data, rng.choice([1, 5, 9]))
        open(f, 'wb').write(data)
        got = load_file(f)
        c['same'] = type(got) is type(want) and got == want
        c['got'] = 'binary' if isinstance(got, bytes) else 'text' if kind == 'text' and isinstance(got, str) else 'json'
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    finally:
        shutil.rmtree(d)
    return c


def text(seed):
    """to_json of the parts."""
    import random
    rng = random.Random(seed)
    tn, res = payload(rng)
    c = dict(kind='text', equal={}, error='', ev=[])
    try:
        c['equal'] = dict(tn=same_tn(tn, json.loads(tn.to_json())), tensor=all(same_tensor(t, json.loads(t.to_json())) for t in tn.tensors),
                          res=all(same_res(r, json.loads(r.to_json())) for r in res),
                          pickle=equal_raw((tn, res), pickle.loads(pickle.dumps((tn, res)))))
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def run(ck):
    ck.load_core()
    ck.model_check('MCFiles', 'SPECIFICATION Spec\nCONSTANT Depth = {}\nPROPERTIES Only There\nINVARIANT Compressed\nCHECK_DEADLOCK FALSE\n'.format(ck.size(2, 3)), workers=4)
    rng = ck.rng
    n = ck.size(1200, 6000)
    seeds = lambda k: [(f'{ck.seed}/{rng.random()}', str(ck.work)) for _ in range(k)]
    cases = ck.pmap(history, seeds(n), chunksize=16)
    cases += ck.pmap(loading, seeds(n), chunksize=32)
    cases += ck.pmap(text, [s for s, _ in seeds(n // 2)], chunksize=32)
    ck.events += sum(max(1, len(c['ev'])) for c in cases)
    ck.check_cases('FilesTrace', cases, lambda c, k: f'{c["kind"]} {({**c["ev"][k - 1], "files": [f["codec"] + "/" + f["fmt"] for f in c["ev"][k - 1]["files"]]}, c["names"]) if c["ev"] else c}')
    ck.sample({k: v for k, v in cases[n].items()})
    ck.extra['cases'] = {k: sum(c['kind'] == k for c in cases) for k in ('history', 'load', 'text')}
    ck.assumptions += ['names of indices and tags are ones which JSON can hold', 'tags of networks are not part of the JSON format']
