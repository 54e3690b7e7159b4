import os
import pickle
import subprocess
import sys

from harness import optrun, twins
from checks.optcommon import decide, record

NAMES = ['reference', 'second', 'looked-at', 'restored', 'restored-once', 'process']


def run(ck):
    core = ck.load_core()
    # interruptions within runs followed by the specification
    cases = record(ck, ck.size(60, 300), ck.size(80, 400), ck.size(16, 40), pickles=.25, looks=.15)
    decide(ck, cases, ['C07', 'C03', 'C06', 'construct'])
    jobs = []
    n = ck.size(120, 600)
    while len(jobs) < n:
        finite = ck.rng.random() < .6
        huge = ck.rng.random() < .1
        kw = dict(dims=(1,) * 9 + (2,), n=25, max_inds=100) if huge else {}
        s = optrun.random_spec(ck.rng, finite=finite, **kw) if huge else optrun.random_spec(ck.rng, finite=finite, n=ck.rng.choice([None, 6, 8]) if not finite else ck.rng.choice([None, 6, 7]))
        try:
            optrun.Run(s).build()
        except ValueError as e:
            if finite and s['skip'] and 'skip_slices' in str(e):
                continue
        jobs.append((s, optrun.plan(ck.rng, ck.size(14, 40), finite=finite)))
    inp, outp = ck.work / 'jobs.pkl', ck.work / 'out.pkl'
    inp.write_bytes(pickle.dumps(dict(so=core.__file__, jobs=jobs)))
    child = subprocess.Popen([sys.executable, '-m', 'harness.twins', str(inp), str(outp)],
                             env={**os.environ, 'PYTHONHASHSEED': str(ck.rng.randint(1, 2**31))},
                             cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = []
    for s, plan in jobs:
        c = dict(names=NAMES, runs=[], same=[], error='')
        try:
            once = ck.rng.randrange(len(plan))
            for f in (None, None, twins.look, twins.reload,
                      lambda o, i: twins.reload(o, i) if i == once else (o, True)):
                r, same = twins.play(optrun.Run(s), plan, f)
                c['runs'].append(r)
                c['same'].append(same)
        except Exception as e:
            c['error'] = f'{type(e).__name__}: {e}'
        ck.events += sum(map(len, c['runs']))
        out.append(c)
    if child.wait(timeout=600):
        raise RuntimeError('the child process failed')
    for c, r in zip(out, pickle.loads(outp.read_bytes())):
        if isinstance(r, str):
            c['error'] = c['error'] or r
        else:
            c['runs'].append(r)
            c['same'].append(True)
    for c, k, clauses in ck.validate('Twin', out):
        s, plan = jobs[c]
        ck.report(f'{"finite-width" if s["finite"] else "infinite-memory"} optimizer: {", ".join(clauses)} '
                  f'{out[c]["error"]} spec={s}', dict(spec={**s, 'dims': list(s['dims'].items())}, plan=plan,
                                                      error=out[c]['error']), clauses=clauses, module='Twin')
