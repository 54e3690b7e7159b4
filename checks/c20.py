"""Loading tensor networks from every kind of description against spec/Loading.tla."""
import bz2
import gzip
import io
import json
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

from harness import netgen, rings
from harness.names import hushed, loud, name_map

P1 = lambda path: [[int(a) + 1, int(b) + 1] for a, b in path]


def leaves(tags):
    """Names in the order of a nested record of merged tensors."""
    if 'name' in tags and not {'x', 'y'} <= set(tags):
        return [tags['name']]
    return leaves(tags['x']) + leaves(tags['y'])


def squeeze(rng, data, work):
    f = os.path.join(work, rng.choice(['net', 'net.txt', 'net.gz', 'net.bz2', 'my net.json']))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        data = gzip.compress(data) if rng.random() < .5 else bz2.compress(data)
    with open(f, 'wb') as fh:
        fh.write(data)
    return f


def rows_of(rng, fmt):
    """Rows: [dimension in halves, names...] with 0: open, -1: sparse."""
    r = rng.random()
    if r < .05:
        return []
    ts, d, out = netgen.gen_net(rng, rng.choice([1, 2, 3, 4, 5, 6, 8, 20] if r < .9 else [60]), max_log2=None, dims=(1, 2, 3, 4, 16), p_dangle=.2)
    sparse = rng.sample(sorted(d), min(len(d), rng.choice([0, 0, 0, 1, 2, len(d)])))
    rows = []
    for x in sorted(d):
        row = [v + 1 for v, xs in enumerate(ts) if x in xs] + [0] * (x in out) + [-1] * (x in sparse)
        rng.shuffle(row)
        rows.append([2 * d[x]] + row)
    bad = rng.random()
    j = rng.randrange(len(rows))
    if bad < .03:
        rows[j] = rows[j][:1]
    elif bad < .06:
        rows[j] = rows[j][:1] + rng.choice([[0], [-1], [0, -1]])
    elif bad < .09:
        rows[j][0] = 0
    elif bad < .12 and fmt in ('list', 'json'):
        rows[j][0] = rng.choice([3, 5, -2, -4, 1])
    return rows


def text_of(rng, lines):
    nl = rng.choice(['\n', '\n', '\r\n'])
    out = []
    for l in lines:
        if l['kind'] == 'row':
            sep = rng.choice([' ', ' ', '\t', '   ', ' \t '])
            out.append(sep.join(l['text']) + rng.choice(['', '', ' ', '\t ']))
        else:
            out.append(l['text'])
    return nl.join(out) + rng.choice(['', nl, nl + nl])


JUNK = ['a 2 b', '2, a, b', '-2 a b', '2.5 a b', 'hello', '2a b', '+2 a b', '( 2 a b )', '// x']


@hushed
def inds_case(args):
    import random
    seed, work = args
    rng = random.Random(seed)
    work = tempfile.mkdtemp(dir=work)
    from tnco.app import load_tn
    fmt = rng.choice(['list', 'json', 'text', 'text', 'file', 'file', 'stdin', 'jsonfile'])
    istext = fmt in ('text', 'file', 'stdin')
    rows = rows_of(rng, 'text' if istext else 'list')
    names = sorted({x for r in rows for x in r[1:] if x > 0})
    style = rng.choice(['word', 'digits', 'odd', 'any'])
    if style == 'any' and fmt != 'list':
        style = 'word'
    f = dict(word=lambda x: f't{x}', digits=lambda x: str(x * 3), odd=lambda x: [f'#{x}', f'A-{x}:b', f'é{x}', f'"{x}"', f'//{x}'][x % 5],
             any=lambda x: [x, -x - .5, f'n{x}', ('n', x), None][x % 5 if x % 5 < 4 or x == 4 else 0])[style]
    tok = {0: '*', -1: '/'}
    kw = {}
    clash = False
    if rng.random() < .25:
        tok = rng.choice([{0: 'OUT', -1: 'sp'}, {0: '/', -1: '*'}, {0: '>', -1: '/'}, {0: '*', -1: '+'}, {0: 'x', -1: 'x'}])
        clash = tok[0] == tok[-1]
        kw = dict(output_index_token=tok[0], sparse_index_token=tok[-1])
        # what marks an index otherwise is a name like any other
        free = [x for x in ('*', '/') if x not in tok.values()]
        if free and names and style != 'any':
            g, special = f, rng.choice(names)
            f = lambda x: free[0] if x == special else g(x)
    elif rng.random() < .3:
        kw = dict(output_index_token='*', sparse_index_token='/')
    nm = {x: f(x) for x in names}
    back = {v: k for k, v in nm.items()}
    word = lambda x: tok[x] if x in tok else nm[x]
    lines = []
    for r in rows:
        while istext and rng.random() < .15:
            lines.append(rng.choice([dict(kind='blank', text=''), dict(kind='blank', text='  \t'), dict(kind='comment', text='# 2 a b'), dict(kind='comment', text='#')]))
        d = r[0] // 2
        lines.append(dict(kind='row', row=r, text=[rng.choice([str(d), str(d), f'0{d}'])] + [word(x) for x in r[1:]] if istext else None))
    if istext and not rows and rng.random() < .7:
        lines.append(rng.choice([dict(kind='blank', text=''), dict(kind='comment', text='# nothing')]))
    if istext and rng.random() < .06:
        lines.insert(rng.randint(0, len(lines)), dict(kind='junk', text=rng.choice(JUNK)))
    opts = dict(kw)
    fuse = True
    if rng.random() < .75:
        fuse = rng.choice([None, 0, False, 1, 2, 3, 4, 4.5, 6, 8])
        opts['fuse'] = fuse
    if rng.random() < .3:
        opts['decompose_hyper_inds'] = rng.random() < .5
    opts['seed'] = rng.randrange(1000)
    c = dict(kind='inds', lines=[{k: v for k, v in l.items() if k in ('kind', 'row')} for l in lines], clash=clash, fuse=bool(fuse), refused=False,
             got={}, error='', how=f'{fmt} {opts} {nm if len(nm) < 9 else ""}')
    obj = [rng.choice([list, tuple])([rng.choice([r[0] // 2, r[0] / 2]) if r[0] % 2 == 0 else r[0] / 2] + [word(x) for x in r[1:]]) for r in rows]
    keep = repr(obj)
    old, cwd = sys.stdin, os.getcwd()
    try:
        if fmt == 'list':
            give = rng.choice([list, tuple])(obj)
        elif fmt in ('json', 'jsonfile'):
            give = json.dumps(obj, indent=rng.choice([None, None, 1]), ensure_ascii=rng.random() < .5)
            if fmt == 'jsonfile':
                give = squeeze(rng, give.encode(), work)
        else:
            give = text_of(rng, lines)
            if fmt == 'file':
                give = squeeze(rng, give.encode(), work)
                if rng.random() < .3:
                    os.chdir(work)
                    give = os.path.basename(give)
            elif fmt == 'stdin':
                sys.stdin, give = io.StringIO(give), 'stdin'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                tn = load_tn(give, **opts, **loud(rng))
            except (TypeError, ValueError) as e:
                c.update(refused=True, message=str(e)[:100])
                return c
        I = lambda xs: [x + 1 for x in xs]
        c['got'] = dict(names=[[back[n] for n in leaves(t)] for t in tn.ts_tags], ts=[dict(inds=I(t.inds), dims=list(map(int, t.dims))) for t in tn],
                        out=sorted(I(tn.output_inds)), sparse=sorted(I(tn.sparse_inds)), path=P1(tn.tags.get('fuse_path', [])),
                        noarrays=all(a is None for a in tn.arrays))
        if repr(obj) != keep:
            c['error'] = 'the argument was changed'
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    finally:
        sys.stdin = old
        os.chdir(cwd)
        shutil.rmtree(work)
    return c


def delta(n, d):
    a = np.zeros([d] * n, dtype=int)
    for k in range(d):
        a[(k,) * n] = 1
    return a


def entries(rng, shape):
    n = int(np.prod(shape, dtype=int))
    a = np.array([0 if rng.random() < .3 else rng.randint(-3, 3) for _ in range(n)]).reshape(shape)
    r = rng.random()
    if len(shape) > 1 and r < .35:
        # diagonal in two of the axes
        for i in range(len(shape)):
            for j in range(i):
                if shape[i] == shape[j] and rng.random() < .5:
                    a = a * delta(2, shape[i]).reshape([shape[k] if k in (i, j) else 1 for k in range(len(shape))])
    elif r < .45:
        a = a * 0 + rng.choice([1, 2, 0])
    return a


@hushed
def net_case(args):
    import random
    rng = random.Random(args)
    from tnco.app import Tensor, TensorNetwork, load_tn
    while True:
        n = rng.randint(1, 5)
        ts, d, out = netgen.gen_net(rng, n, max_inds=rng.randint(1, 6), dims=(1, 2, 2, 2, 3), p_dangle=.15, max_log2=None)
        if np.prod([d[x] for x in {x for xs in ts for x in xs}], dtype=int) <= 250 and all(len(xs) <= 5 for xs in ts):
            break
    used = sorted({x for xs in ts for x in xs})
    m = max(used)
    mp, back = name_map(rng, range(1, m + 1))
    sparse = rng.sample(used, rng.randint(1, len(used))) if rng.random() < .1 else []
    how = rng.choice(['all'] * 7 + ['none', 'some'])
    arrays = [entries(rng, [d[x] for x in xs]) if how == 'all' or (how == 'some' and rng.random() < .5) else None for xs in ts]
    dt = rng.choice([float, complex, int, 'float32'])
    T = [Tensor([mp[x] for x in xs], dims=[d[x] for x in xs], array=None if a is None else a.astype(dt), tags=dict(name=v + 1)) for v, (xs, a) in enumerate(zip(ts, arrays))]
    hyper = any(sum(x in xs for xs in ts) > 2 for x in used)
    hasout = hyper or rng.random() < .8
    opts = {}
    fuse, dec = True, True
    if rng.random() < .8:
        fuse = opts['fuse'] = rng.choice([None, 0, False, 1, 2, 3, 4, 4.5, 6])
    if rng.random() < .8:
        dec = opts['decompose_hyper_inds'] = rng.random() < .5
    if rng.random() < .3:
        opts['dtype'] = rng.choice(['complex128', 'complex64'])
    opts['seed'] = rng.randrange(1000)
    I = lambda xs: [back[x] for x in xs]
    flat = lambda a: [] if a is None else whole(a)
    c = dict(kind='net', net=dict(ts=[dict(inds=xs, dims=[d[x] for x in xs], has=a is not None, q=flat(a)) for xs, a in zip(ts, arrays)],
                                  hasout=hasout, out=out if hasout else [], hassparse=True, sparse=sparse, names=list(range(1, n + 1))),
             fuse=bool(fuse), decompose=bool(dec), refused=False, got={}, error='', how=str(opts))
    try:
        tn0 = TensorNetwork(T, output_inds=[mp[x] for x in out] if hasout else None, sparse_inds=[mp[x] for x in sparse], tags=rng.choice([None, dict(mine=1)]))
        keep = [a if a is None else a.copy() for a in tn0.arrays]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                tn = load_tn(tn0, **opts, **loud(rng))
            except (TypeError, ValueError) as e:
                c.update(refused=True, message=str(e))
                return c
        hm = tn.tags.get('hyper_inds_map', {})
        decd = bool(dec) and all(a is not None for a in arrays) and not sparse
        c['got'] = dict(names=[] if decd else [leaves(t) for t in tn.ts_tags], ts=[dict(inds=I(t.inds), dims=list(map(int, t.dims)), q=flat(t.array)) for t in tn],
                        out=sorted(I(tn.output_inds)), sparse=sorted(I(tn.sparse_inds)), path=P1(tn.tags.get('fuse_path', [])),
                        map=[back[hm[mp[x]]] if mp[x] in hm else x for x in range(1, m + 1)] if decd else [back[x] for x in hm])
        if decd and not set(mp[x] for x in used) <= set(hm):
            c['error'] = 'indices are missing from the map'
        if any((a is None) != (b is None) or (a is not None and not np.array_equal(a, b)) for a, b in zip(keep, tn0.arrays)) or 'fuse_path' in tn0.tags:
            c['error'] = 'the argument was changed'
        if (tn0.tags.get('mine') == 1) != (tn.tags.get('mine') == 1):
            c['error'] = 'tags were lost'
        if 'dtype' in opts and any(str(a.dtype) != opts['dtype'] for a in tn.arrays if a is not None):
            c['error'] = 'wrong type of arrays'
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


def whole(a):
    a = np.asarray(a)
    r = np.real(a)
    assert np.all(np.abs(np.imag(a)) < 1e-4) and np.all(np.abs(r - np.round(r)) < 1e-4), 'not whole numbers'
    return [int(x) for x in np.round(r).ravel()]


REFUSE = [None, 5, 2.5, object(), b'2 a b', 'there is no such file', '/nonexistent/dir/file', '2', 'x' * 300, 'x' * 3000, 'x/' * 3000, '[[2, "a"', '{"tn": 1}', '"text"', 'true', '12',
          [[]], [{}], [()], [[2]], [2, 3], ['ab'], [[2, 'a'], 'x'], [['2', 'a']], [[[2], 'a']], [[float('inf'), 'a']], [[float('nan'), 'a']], [[None, 'a']],
          [(np.eye(2), (0, 1))], [(np.eye(3), (0,))], [(np.eye(2), 0)], [([[1, 0], [0, 1]], (0,))], [(np.ones((2, 3)), (0,))], iter([[2, 'a']]), {'cirq': 1}]


def refuse_case(obj):
    from tnco.app import load_tn
    c = dict(kind='refuse', refused=False, error='', how=repr(obj)[:80])
    try:
        load_tn(obj)
    except (TypeError, NotImplementedError, ValueError):
        c['refused'] = True
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    return c


QASM = {'X': 'x', 'Y': 'y', 'Z': 'z', 'S': 's', 'Sd': 'sdg', 'T': 't', 'Td': 'tdg', 'H': 'h', 'CX': 'cx', 'CZ': 'cz', 'SWAP': 'swap', 'CCX': 'ccx', 'CSWAP': 'cswap'}


@hushed
def circuit_case(args):
    """As in C17, with every way to write a circuit down."""
    import math
    import random

    import cirq
    import qiskit
    from checks import c17
    from tnco.app import load_tn
    seed, work = args
    rng = random.Random(seed)
    work = tempfile.mkdtemp(dir=work)
    style = rng.choice(['gates', 'cirq', 'frozen', 'json', 'jsondict', 'jsonfile', 'qiskit', 'qasm', 'qasmfile', 'stdin'])
    if style == 'gates':
        n, spec, K = c17.gen(rng, 'arrays')
        names = rng.choice([list(range(n)), [f'q{j}' for j in range(n)], [('a', -j) for j in range(n)]])
        give = [(g.array(), tuple(names[q] for q in qs)) for g, qs in spec]
        give = rng.choice([list, tuple])(give)
    else:
        while True:
            n, named, K = c17.gen_named(rng)
            if not (style in ('qasm', 'qasmfile', 'stdin') and any(nm not in QASM for nm, _ in named)):
                break
        spec = [(c17.NAMED[nm][0], qs) for nm, qs in named]
        if style == 'qiskit':
            give = qiskit.QuantumCircuit(n)
            for nm, qs in named:
                getattr(give, c17.NAMED[nm][2])(*qs)
            names = give.qubits
        elif style in ('qasm', 'qasmfile', 'stdin'):
            names = [cirq.NamedQubit(f'q_{j}') for j in range(n)]
            give = rng.choice(['', '// a circuit\n', '\n// x\n\n']) + f'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[{n}];\n' + ''.join(
                QASM[nm] + ' ' + ','.join(f'q[{q}]' for q in qs) + ';\n' for nm, qs in named)
            if style == 'qasmfile':
                give = squeeze(rng, give.encode(), work)
        else:
            names = rng.choice([cirq.LineQubit.range(n), [cirq.NamedQubit(f'x{9 - j}') for j in range(n)], [cirq.GridQubit(j % 2, j) for j in range(n)]])
            give = cirq.Circuit(c17.NAMED[nm][1].on(*(names[q] for q in qs)) for nm, qs in named)
            if style == 'frozen':
                give = give.freeze()
            elif style != 'cirq':
                give = cirq.to_json(give, indent=rng.choice([None, 2]))
                if style == 'jsondict':
                    give = json.loads(give)
                elif style == 'jsonfile':
                    give = squeeze(rng, give.encode(), work)
    cost = len(spec) * 2**n * 3
    budget = max(0, min(n, int(math.log2(max(1, 6000 // cost)))))
    ini, ai, K = c17.pick_states(rng, names, K, budget)
    fin, af, K = c17.pick_states(rng, names, K, n)
    kw = dict(seed=rng.randrange(1000))
    if rng.random() < .5:
        kw['simplify_circuit'] = rng.random() < .5
    if rng.random() < .3:
        kw['dtype'] = rng.choice(['complex128', 'complex64'])
    if rng.random() < .3:
        kw['fuse'] = rng.choice([None, 2, 6])
    if ai != '0' or rng.random() < .5:
        kw['initial_state'] = ai
    if af != '0' or rng.random() < .5:
        kw['final_state'] = af
    c = dict(kind=style, n=n, gates=[dict(q=[q + 1 for q in qs], m=g.m) for g, qs in spec], ini=ini, fin=fin, K=K, badstate=False, type=kw.get('dtype', ''), types=[], refused=False, outs=[[], []],
             values=[], norm=[], p=1, rev=style == 'qiskit', error='', options=str(kw))
    old = sys.stdin
    try:
        if style == 'stdin':
            sys.stdin, give = io.StringIO(give), 'stdin'
        tn = load_tn(give, **kw, **loud(rng))
        num = {q: j + 1 for j, q in enumerate(names)}
        c['outs'] = [sorted(num[q] for q, t in tn.output_inds if t == x) for x in 'if']
        assert len(tn.output_inds) == len(c['outs'][0]) + len(c['outs'][1]), 'tags of open indices'
        c['types'] = sorted({str(a.dtype) for a in tn.arrays})
        assert not tn.sparse_inds, 'sparse indices'
        order = [(names[j], 'i') for j in range(n) if ini[j] == []] + [(names[j], 'f') for j in range(n) if fin[j] == []]
        v = rings.evaluate(tn.arrays, tn.ts_inds, order).ravel()
        p = int(np.argmax(np.abs(v) > .999 * np.max(np.abs(v))))
        s = 2.**K * c17.ZF
        c.update(p=p + 1, values=[[int(round((x * v[p].conjugate()).real * s)), int(round((x * v[p].conjugate()).imag * s))] for x in v],
                 norm=[int(round(abs(x)**2 * s)) for x in v])
        assert all(abs(x) < 2**31 for y in c['values'] for x in y), 'amplitudes too large'
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    finally:
        sys.stdin = old
        shutil.rmtree(work)
    return c


def run(ck):
    ck.load_core()
    ck.model_check('MCLoading', 'SPECIFICATION Spec\nCONSTANT N = {}\nINVARIANTS Reads Reorder\nCHECK_DEADLOCK FALSE\n'.format(ck.size(2, 3)), workers=4, timeout=3000)
    rng = ck.rng
    n = ck.size(500, 8000)
    seeds = lambda k: [(f'{ck.seed}/{rng.random()}', str(ck.work)) for _ in range(k)]
    cases = ck.pmap(inds_case, seeds(n), chunksize=32)
    cases += ck.pmap(net_case, [s for s, _ in seeds(n)], chunksize=32)
    cases += [refuse_case(x) for x in REFUSE]
    circuits = ck.pmap(circuit_case, seeds(ck.size(160, 2500)), chunksize=8)
    ck.events += len(cases) + len(circuits)
    ck.check_cases('LoadTrace', cases, lambda c, k: f'{c["kind"]} {c["how"]} {c.get("lines") or c.get("net")} refused={c["refused"]} {c.get("message", "")} {c["error"]}'[:900])
    for c, k, clauses in ck.validate('CircuitTrace', circuits):
        x = circuits[c]
        key = 'qiskit-qubit-order' if clauses == ['qiskit-qubit-order'] else None
        ck.report(f'{x["kind"]} n={x["n"]} {len(x["gates"])} gates {x["options"]}: {", ".join(clauses)} {x["error"]}', x, key=key, clauses=clauses, module='CircuitTrace')
    ck.sample(cases[n - 1])
    ck.extra['cases'] = {k: sum(c['kind'] == k for c in cases + circuits) for k in sorted({c['kind'] for c in cases + circuits})}
    ck.assumptions += ['no tensor has an index twice', 'indices of a list are numbered in the order of its rows']
