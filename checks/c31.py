"""The command line against spec/Cli.tla."""
import contextlib
import io
import json
import os
import pickle
import random
import shutil
import sys
import tempfile
import warnings

from harness import netgen

ORDER = ['tn', 'betas', 'n_steps', 'n_runs', 'n_projs']
P = lambda s: [ord(x) for x in s]


def parameters(rng, d):
    """Parameters with their values and how the values are written."""
    n = rng.choice([1, 2, 3, 4, 5])
    ts, dims, out = netgen.gen_net(rng, n, dims=(2, 3), p_hyper=rng.choice([0, .3]), p_out=.3, max_inds=n + 2, max_log2=12)
    rows = []
    for x in sorted(dims):
        r = [dims[x]] + [f't{v}' for v, t in enumerate(ts) if x in t] + (['*'] if x in out else [])
        rows.append(r)
    text = '\n'.join(' '.join(map(str, r)) for r in rows)
    how = rng.choice(['list', 'list', 'text', 'file', 'json'])
    if how == 'file':
        f = os.path.join(d, 'net.txt')
        with open(f, 'w') as h:
            h.write(text)
        tn = f, f
    elif how == 'text':
        tn = text, text
    else:
        tn = rows, repr([tuple(r) for r in rows]) if how == 'list' else json.dumps(rows)
    g = dict(tn=tn, betas=rng.choice([((0, 100), '(0, 100)'), ([0, 10.5], '[0,10.5]'), ((1, 2), '1,2')]), n_steps=rng.choice([(1, '1'), (20, '20')]),
             seed=(s := rng.randrange(1000), str(s)), n_jobs=(1, '1'))
    if rng.random() < .03:
        g.pop('betas')
    opt = dict(max_width=rng.choice([(4, '4'), (2.5, '2.5'), (None, 'None'), (30, '30')]),
               cost_type=rng.choice([('float32', 'float32'), ('float1024', 'float1024'), ('float64', 'float64'), ('half', 'half')]),
               width_type=rng.choice([('float64', 'float64'), ('float128', '"float128"')]),
               output_format=rng.choice([('json', 'json'), ('raw', 'raw'), ('JSON', "'JSON'"), ('xml', 'xml'), (None, 'None')]),
               output_filename=rng.choice([(f, f) for f in (os.path.join(d, 'out'), os.path.join(d, 'out.json.gzip'), os.path.join(d, 'old'))]),
               output_compression=rng.choice([('none', 'none'), ('auto', 'auto'), ('bz2', 'bz2')]),
               overwrite_output_file=rng.choice([(True, 'True'), (False, 'False'), (True, None)]),
               method=rng.choice([('sa', 'sa')] * 8 + [('none', 'none')]), n_runs=rng.choice([(1, '1'), (2, '2'), (3, '3')]), fuse=rng.choice([(0, '0'), (2, '2')]),
               decompose_hyper_inds=rng.choice([(False, 'False'), (True, None), (False, '0')]), atol=(1e-6, '1e-6'),
               verbose=rng.choice([(0, '0'), (0, 'False'), (1, None)]), timeout=(100, '100'), update_slices=rng.choice([(1, '1'), (5, '5')]))
    if rng.random() < .4:
        opt['fuse'] = (0, '0')
    q = rng.choice([.1, .3, .6])
    for x, v in opt.items():
        if rng.random() < (q if x != 'fuse' else .8):
            g[x] = v
    if 'max_width' not in g or g['max_width'][0] is None:
        g.pop('update_slices', None)
    return g


def write(rng, g):
    """The words for the parameters: options in any order and spelling, some parameters as words without name."""
    spell = lambda x: x.replace('_', '-') if rng.random() < .5 else x
    free = []
    for x in ORDER:
        if x not in g:
            break
        if rng.random() < .5 and not (x in ('n_steps', 'n_runs') and 'betas' not in g):
            free.append(x)
        elif rng.random() < .5:
            break
    # every parameter before one without name is given
    opts = []
    for x, (_, v) in g.items():
        if x not in free:
            opts.append(([f'--{spell(x)}={v}'] if rng.random() < .5 else [f'--{spell(x)}', v]) if v is not None else [f'--{spell(x)}'])
    rng.shuffle(opts)
    bare = [o for o in opts if len(o) == 1 and '=' not in o[0]]
    words = ['optimize'] + [g[x][1] for x in free]
    pieces = [[o] for o in opts]
    k = rng.choice([0, 0, len(opts), rng.randint(0, len(opts))])
    before = opts[:k]
    after = opts[k:]
    # an option without value would take a word which follows it
    fix = lambda os: [o if o not in bare else [o[0] + '=True'] for o in os[-1:]]
    if before:
        before = before[:-1] + fix(before)
    return [w for o in before for w in o] + words + [w for o in after for w in o]


def clean(o):
    """A document without running times, sets in order."""
    if isinstance(o, dict):
        return {k: (sorted(map(clean, v), key=str) if k in ('slices', 'output_inds', 'sparse_inds') else
                    [sorted(x, key=str) for x in v] if k == 'disconnected_slices' else clean(v)) for k, v in o.items() if k != 'runtime_s'}
    return [clean(x) for x in o] if isinstance(o, list) else o


def as_json(tn, res):
    return json.loads('{{"tn": {}, "res": [{}]}}'.format(tn.to_json(), ', '.join(r.to_json() for r in res)))


def content(name):
    """The document in a written file."""
    from tnco.app.app import load_file
    o = load_file(name)
    if isinstance(o, bytes):
        return 'raw', as_json(*pickle.loads(o))
    return 'json', o


def outcome(d, call):
    """Run something in a fresh copy of the directory; what it printed or wrote."""
    for f in ('out', 'out.json.gzip'):
        if os.path.exists(os.path.join(d, f)):
            os.remove(os.path.join(d, f))
    with open(os.path.join(d, 'old'), 'w') as h:
        h.write('old')
    out, err = io.StringIO(), io.StringIO()
    how, val = 'text', None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            val = call()
        except SystemExit as x:
            how = 'usage'
        except Exception as x:
            how = type(x).__name__
    text = out.getvalue()
    files = [f for f in ('out', 'out.json.gzip') if os.path.exists(os.path.join(d, f))]
    if open(os.path.join(d, 'old'), 'rb').read() != b'old':
        files.append('old')
    return how, val, text, files


def case(args):
    seed, work = args
    from tnco.app import Optimizer
    from tnco.app.cli import main
    rng = random.Random(seed)
    d = tempfile.mkdtemp(dir=work)
    g = parameters(rng, d)
    if rng.random() < .05:
        g['no_such_option'] = (1, '1')
    words = write(rng, g)
    c = dict(words=[P(w) for w in words], order=[P(x) for x in ORDER], given=[[P(x), P('True' if v is None else v)] for x, (_, v) in g.items()], command=P('optimize'),
             format=str(g.get('output_format', ('',))[0]).lower(), formatname=P('output_format'), cli={}, lib={}, line=' '.join(words), error='', ev=[])
    if c['format'] == 'none':
        c['format'] = 'json'
    try:
        keep = sys.argv

        def line():
            sys.argv = ['tnco', *words]
            try:
                main()
            finally:
                sys.argv = keep

        def library():
            init = ['method', 'max_width', 'n_jobs', 'width_type', 'cost_type', 'output_format', 'output_filename', 'output_compression',
                    'overwrite_output_file', 'atol', 'dtype', 'backend', 'seed', 'verbose']
            a = {x: v for x, (v, _) in g.items() if x in init}
            if a.get('output_format') is None:
                a['output_format'] = 'json'
            return Optimizer(**a).optimize(**{x: v for x, (v, _) in g.items() if x not in init})

        how, _, text, files = outcome(d, line)
        r = dict(how=how, doc='', fmt='')
        if how == 'text' and files:
            r.update(how='file', fmt=(o := content(os.path.join(d, files[0])))[0], doc=json.dumps([files, clean(o[1])], sort_keys=True))
            assert not text.strip(), f'printed {text[:100]!r}'
        elif how == 'text':
            try:
                r.update(fmt='json', doc=json.dumps(clean(json.loads(text)), sort_keys=True))
            except ValueError:
                r.update(fmt='raw', doc=text.split('[')[0].strip())
        else:
            assert not files, f'wrote {files} although refused'
        c['cli'] = r
        how, val, _, files = outcome(d, library)
        r = dict(how=how, doc='')
        if how == 'text' and files:
            r.update(how='file', doc=json.dumps([files, clean(content(os.path.join(d, files[0]))[1])], sort_keys=True))
        elif how == 'text':
            r['doc'] = json.dumps(clean(json.loads(val)), sort_keys=True) if isinstance(val, str) else str(val).split('[')[0].strip()
        c['lib'] = r
        if how == 'TypeError' and ('no_such_option' in g or 'betas' not in g):
            r['how'] = 'usage'
        if c['cli']['how'] == 'TypeError' and r['how'] == 'usage':
            c['cli']['how'] = 'usage'
    except Exception as e:
        c['error'] = f'{type(e).__name__}: {e}'
    finally:
        shutil.rmtree(d)
    return c


def run(ck):
    ck.model_check('MCCli', 'SPECIFICATION Spec\nINVARIANTS ReadBack BareLaw\nCHECK_DEADLOCK FALSE\n', workers=4)
    ck.load_core()
    work = tempfile.mkdtemp(prefix='c31_', dir='/tmp')
    try:
        cases = ck.pmap(case, [(f'{ck.seed}/{ck.rng.random()}', work) for _ in range(ck.size(1200, 6000))], chunksize=10)
    finally:
        shutil.rmtree(work)
    ck.events += 2 * len(cases)
    ck.check_cases('CliTrace', cases, lambda c, k: f'tnco {c["line"]}: {c["error"]} cli={str(c["cli"])[:200]} lib={str(c["lib"])[:200]}')
    ck.extra['outcomes'] = {h: sum(c['cli'].get('how') == h for c in cases) for h in sorted({c['cli'].get('how', 'error') for c in cases})}
    ck.sample({k: v for k, v in cases[0].items() if k in ('line', 'cli', 'lib')})
    ck.assumptions += ['one worker process per call (C18 decides that their number does not matter)', 'running times are left out of the comparison']
