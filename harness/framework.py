"""Common machinery: TLC runs, verdicts, evidence and replay files."""
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = sorted(Path('/opt/veriftools/tla').glob('*.jar'))
NPROC = 8


class MachineryError(RuntimeError):
    pass


class CoreCrash(RuntimeError):
    """The code under test ended the process it ran in."""


def _worker(so):
    from harness import core
    core.load(so)


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.work = Path(tempfile.mkdtemp(prefix=f'verif_{prop}_'))
        self.rng = random.Random(f'{prop}/{seed}')
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.mc = []
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.extra = {}
        self._lock = threading.Lock()
        self._pool = ThreadPoolExecutor(NPROC)
        self._mc_futures = []
        self.core_how = None

    # ---------------------------------------------------------------- core
    def start_core(self):
        """Locate/compile the extension (in background threads meanwhile models are checked)."""
        from harness import core
        self._core_future = ThreadPoolExecutor(1).submit(core.locate, self.work)

    def load_core(self):
        from harness import core
        so, self.core_how = self._core_future.result()
        return core.load(so)

    def pmap(self, fn, items, chunksize=1):
        """Map a module-level function over items in several processes which have the core loaded."""
        so, _ = self._core_future.result()
        ctx = multiprocessing.get_context('spawn')
        with ProcessPoolExecutor(NPROC, ctx, _worker, (str(so),)) as ex:
            procs = {}
            try:
                res = ex.map(fn, items, chunksize=chunksize)
                procs = dict(ex._processes)
                return list(res)
            except BrokenProcessPool as e:
                codes = sorted({p.exitcode for p in procs.values() if p.exitcode is not None})
                if any(-c in (4, 6, 7, 8, 11) for c in codes):
                    raise CoreCrash(f'a process which runs the code under test crashed (exit codes {codes})') from e
                raise MachineryError(f'workers died: {codes}') from e

    def size(self, quick, thorough):
        return quick if self.quick else thorough

    # ----------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers=1, timeout=600, heap='3g', extra=()):
        d = Path(tempfile.mkdtemp(prefix='tlc_', dir=self.work))
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC',
               '-XX:TieredStopAtLevel=4', '-cp', ':'.join(map(str, CM)),
               f'-DTLA-Library={SPEC}', 'tlc2.TLC', '-metadir', str(d / 'meta'),
               '-workers', str(workers), '-config', str(cfg), '-noGenerateSpecTE',
               *extra, str(SPEC / (module + '.tla'))]
        p = subprocess.Popen(cmd, cwd=d, env={**os.environ, **(env or {})},
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            raise MachineryError(f'TLC timed out on {module} ({cfg})\n{out[-2000:]}')
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, out

    @staticmethod
    def _stats(out):
        m = None
        for m in re.finditer(r'(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found', out):
            pass
        if not m:
            return 0, 0
        return tuple(int(x.replace(',', '')) for x in m.groups())

    def cfg(self, text):
        f = self.work / f'c{abs(hash(text)) % 10**12}.cfg'
        f.write_text(text)
        return f

    def model_check(self, module, cfg, *, env=None, name=None, timeout=600, workers=2, background=True,
                    heap='4g', extra=(), want=None):
        """Exhaustively check a model; the model itself has to be right."""
        if isinstance(cfg, str) and '\n' in cfg:
            cfg = self.cfg(cfg)
        elif isinstance(cfg, str):
            cfg = SPEC / cfg

        def run():
            t = time.time()
            rc, out = self._tlc(module, cfg, env, workers, timeout, heap, extra)
            if rc != 0 or 'Model checking completed. No error has been found' not in out:
                raise MachineryError(f'the model {module} ({cfg}) fails:\n{out[-6000:]}')
            gen, dist = self._stats(out)
            if want is not None and dist != want:
                raise MachineryError(f'the model {module} has {dist} states instead of {want}')
            with self._lock:
                self.states += dist
                self.transitions += gen
                self.mc.append(dict(model=name or module, distinct_states=dist, generated=gen,
                                    wall_s=round(time.time() - t, 1)))
            return out

        if background:
            f = self._pool.submit(run)
            self._mc_futures.append(f)
            return f
        return run()

    def validate(self, module, cases, *, cfg='Trace.cfg', consts=None, chunk=None, timeout=800, heap='2g',
                 env=None):
        """Check recorded cases against a trace specification.

        Every case is a JSON object; the module evaluates Cases (ndjson) one
        after the other and prints {"c": case (1-based), "k": event, "bad": [clauses]}
        for the ones the specification does not allow.  Returns [(case, event, clauses)].
        """
        if not cases:
            return []
        n = chunk or max(1, -(-len(cases) // NPROC))
        k = -(-len(cases) // n)
        # dealt out in turn: neighbours cost about the same
        jobs = [list(range(j, len(cases), k)) for j in range(k)]

        def run(job):
            cs = [cases[j] for j in job]
            f = Path(tempfile.mkstemp(suffix='.ndjson', dir=self.work)[1])
            with open(f, 'w') as fh:
                for c in cs:
                    fh.write(json.dumps(c, allow_nan=False) + '\n')
            rc, out = self._tlc(module, SPEC / cfg, {'TRACE': str(f), **(env or {})}, 1, timeout, heap)
            bad = []
            done = None
            for line in out.splitlines():
                line = line.strip()
                if line.startswith('"{') and line.endswith('}"'):
                    o = json.loads(json.loads(line))
                    if 'done' in o:
                        done = o
                    else:
                        bad.append((job[o['c'] - 1], o.get('k', 0), sorted(o['bad'])))
            if rc != 0 or done is None or done['done'] != len(cs):
                keep = Path(tempfile.gettempdir()) / f'verif_fail_{self.prop}.ndjson'
                if os.environ.get('VERIF_KEEP'):
                    shutil.copy(f, keep)
                raise MachineryError(f'trace validation with {module} broke down (rc={rc}):\n{out[-5000:]}')
            gen, dist = self._stats(out)
            want = 1 + len(cs) + sum(len(c.get('ev', ())) for c in cs)
            if dist < (1 + len(cs) if bad else want):
                raise MachineryError(f'{module} walked {dist} of {want} states:\n{out[-3000:]}')
            f.unlink()
            return bad, dist, gen

        res = []
        for bad, dist, gen in self._pool.map(run, jobs):
            res += bad
            self.states += dist
            self.transitions += gen
        self.traces += len(cases)
        return sorted(res)

    # ------------------------------------------------------------ reporting
    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, case):
        """Record a violation: what is wrong, and everything needed to replay it."""
        self.violations.append(dict(what=what, case=case))

    def check_cases(self, module, cases, what, relevant=None, key=None, **kw):
        """Validate cases; each case not allowed by the spec is a violation.

        'relevant' restricts to the clauses which belong to this property; 'what'
        maps a case to a readable description; 'key' gives the identity used to
        look up known findings.
        """
        bad = self.validate(module, cases, **kw)
        for c, k, clauses in bad:
            cl = [x for x in clauses if relevant is None or any(x.startswith(r) for r in relevant)]
            if not cl:
                continue
            w = what(cases[c], k) if callable(what) else what
            self.report(f'{w}: {", ".join(cl)}', cases[c], key and key(cases[c], k, cl), event=k, clauses=cl,
                        module=module)
        return bad

    def report(self, what, case, key=None, **kw):
        if key is not None:
            for f in known_findings():
                if f['property'] == self.prop and f['key'] == key:
                    self.known.append((f, what))
                    return
        self.violations.append(dict(what=what, case=case, **kw))

    def finish(self, level='model_checking'):
        for f in self._mc_futures:
            f.result()
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples or ['(none)'], events=self.events,
                                models=self.mc, core=self.core_how, **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        d = VERIF / 'evidence'
        d.mkdir(exist_ok=True)
        (d / f'{self.prop}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')
        seen = set()
        for f, w in self.known:
            if f['key'] not in seen:
                seen.add(f['key'])
                print(f'KNOWN-FINDING: property={self.prop} {f["what"]}')
        rc = 0
        if self.violations:
            p = d / f'replay_{self.prop}.json'
            p.write_text(json.dumps(self.violations[:20], indent=1, default=str) + '\n')
            for v in self.violations[:8]:
                print('  ', str(v['what'])[:400])
            print(f'VIOLATION property={self.prop} replay={p}')
            rc = 1
        else:
            print(f'OK property={self.prop} tier={self.tier} traces={self.traces} events={self.events} '
                  f'states={self.states} wall={ev["wall_s"]}s core={self.core_how}')
        sys.stdout.flush()
        return rc

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known_findings():
    out = []
    p = VERIF / 'known_findings.jsonl'
    if p.exists():
        for line in p.read_text().splitlines():
            if line.strip():
                o = json.loads(line)
                if o.get('status') == 'known':
                    out.append(o)
    return out
