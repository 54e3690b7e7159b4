"""Recorded parallel calls, buffers, and all schedules of the model."""
import contextlib
import gc
import io
import json
import os
import signal
import sys
import threading
import time
import _thread


class Boom(Exception):
    pass


def make_core(log, scripts, names, own):
    """A task which follows its script and writes down what it sees."""

    def core(*args, idx, status, stop, **kw):
        import json as js
        import os as o
        import re
        import time as tm
        fd = o.open(log, o.O_WRONLY | o.O_APPEND | o.O_CREAT)

        def say(e, **x):
            o.write(fd, (js.dumps(dict(e=e, t=idx + 1, ns=tm.monotonic_ns(), **x)) + '\n').encode())

        def flag():
            # the time is taken after the flag has been read
            f = bool(stop[idx])
            return dict(stop=f)

        bufs = [kw.pop(x) for x in names if x in kw]
        f = flag()
        say('start', a=[*args, *(kw[x] for x in sorted(kw))], slots=[int(b[idx]) for b in bufs], status=float(status[idx]),
            shm=[x.shm.name for x in (status, stop, *bufs)] if own else [], **f)
        n = 0
        for op in scripts[idx]:
            if op[0] == 'sleep':
                tm.sleep(op[1])
            elif op[0] == 'status':
                status[idx] = op[1]
                if abs(status[idx] - op[1]) > 1e-6:
                    say('slot', r=-1, w=n)
            elif op[0] == 'see':
                say('see', **flag())
            elif op[0] == 'slot' and bufs:
                r = {int(b[idx]) for b in bufs}
                n, last = (idx * 11 + n * 3 + 1) % 120, n
                for b in bufs:
                    b[idx] = n
                say('slot', r=r.pop() if len(r) == 1 else -1, w=n)
            elif op[0] == 'wait':
                end = tm.monotonic() + 30
                while not stop[idx]:
                    if tm.monotonic() > end:
                        say('gaveup')
                        break
                    tm.sleep(.01)
                    if int(tm.monotonic() * 100) % 10 == 0:
                        say('tick')
                else:
                    say('see', **flag())
            elif op[0] == 'fail':
                say('fail')
                raise op[1](f'task {idx + 1}')
        tok = 1 + int.from_bytes(o.urandom(3), 'little')
        say('done', tok=tok)
        return tok

    return core


def gen(rng, parallel, style):
    n = rng.randint(1, 7)
    jobs = 1 if not parallel else rng.choice([2, 2, 3, 4, -1])
    timed = style in ('timeout', 'late')
    timeout = rng.choice([0, .05, .3]) if style == 'timeout' else 300. if style == 'late' else None
    scripts = []
    for t in range(n):
        ops = []
        for _ in range(rng.randint(0, 5)):
            ops.append(rng.choice([('sleep', rng.choice([0, .001, .02])), ('slot',), ('slot',), ('see',), ('status', rng.choice([.25, .5]))]))
        scripts.append(ops)
    if style == 'timeout':
        for t in rng.sample(range(n), rng.randint(1, n)):
            scripts[t].append(('wait',))
    if style == 'fail':
        for t in rng.sample(range(n), rng.randint(1, min(n, 3))):
            scripts[t].append(('fail', rng.choice([ValueError, KeyError, RuntimeError])))
        if parallel and rng.random() < .5:
            # the others would not end by themselves
            for t in range(n):
                if scripts[t][-1:] != [('wait',)] and not any(o[0] == 'fail' for o in scripts[t]) and rng.random() < .5:
                    scripts[t].append(('wait',))
            # but failing tasks have to get a worker
            order = sorted(range(n), key=lambda t: not any(o[0] == 'fail' for o in scripts[t]))
            scripts = [scripts[t] for t in order]
    if style == 'interrupt':
        if parallel:
            scripts[0].append(('wait',))
        else:
            scripts[rng.randrange(n)].append(('fail', KeyboardInterrupt))
    npos, nkw = rng.choice([(1, 0), (2, 0), (0, 1), (0, 2), (1, 1), (2, 1)])
    lens = [n + rng.choice([0, 0, 2]) for _ in range(npos + nkw)]
    lens[rng.randrange(npos + nkw)] = n
    lists = [[rng.randint(0, 10**6) for _ in range(m)] for m in lens]
    nb = rng.choice([0, 1, 2])
    return dict(n=n, jobs=jobs, timeout=timeout, timed=timed, scripts=scripts, npos=npos, lists=lists,
                names=[f'buf{j}' for j in range(nb)], buffers=[(f'buf{j}', rng.choice('qifdb')) for j in range(nb)],
                verbose=rng.choice([0, 0, 0, 1, 2, 3] if parallel else [0, 0, 0, 0, 0, 1, 2, 3]), iters=rng.random() < .3,
                style=style, parallel=parallel)


def record(ck, x, j):
    """Make the call; returns the case and a function which tells what came later."""
    from tnco.parallel import Parallel
    log = str(ck.work / f'log{j}')
    core = make_core(log, x['scripts'], x['names'], True)
    it = iter if x['iters'] else list
    pos = [it(v) for v in x['lists'][:x['npos']]]
    kw = {f'k{m}': it(v) for m, v in enumerate(x['lists'][x['npos']:])}
    if x['timeout'] is not None or j % 2:
        kw['timeout'] = x['timeout']
    if x['buffers'] or j % 2:
        kw['buffers'] = iter(x['buffers']) if x['iters'] else x['buffers']
    before = set(threading.enumerate())
    end = dict(e='end')
    over = threading.Event()
    if x['style'] == 'interrupt' and x['parallel']:

        def interrupt():
            while not over.is_set():
                with contextlib.suppress(FileNotFoundError):
                    if 'start' in open(log).read():
                        time.sleep(.1)
                        if not over.is_set():
                            _thread.interrupt_main()
                        return
                time.sleep(.02)

        threading.Thread(target=interrupt).start()
    std = sys.stdout, sys.stderr
    t0 = time.monotonic_ns()
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            try:
                res = Parallel(core, *pos, n_jobs=x['jobs'], verbose=x['verbose'], refresh_per_second=20, **kw)
            finally:
                over.set()
                end['ns'] = time.monotonic_ns()
        end.update(how='returned', res=[v if isinstance(v, int) else -1 for v in res] if isinstance(res, list) else [-1])
    except KeyboardInterrupt:
        end.update(how='interrupted')
    except Exception as e:
        m = str(e).replace("'", '')
        end.update(how='raised' if type(e) in (ValueError, KeyError, RuntimeError) and m.startswith('task ') else f'{type(e).__name__}: {e}',
                   by=int(m[5:]) if m.startswith('task ') else 0)
    sys.stdout, sys.stderr = std

    def events():
        if not os.path.exists(log):
            return []
        ev = [json.loads(v) for v in open(log).read().splitlines()]
        return sorted(ev, key=lambda e: e['ns'])

    ev = [e for e in events() if e['ns'] <= end['ns']]
    shm = {v for e in ev if e['e'] == 'start' for v in e['shm']}

    def lingering():
        # threads of joblib's pool of processes stay with the pool
        return [t for t in threading.enumerate() if t not in before and t.is_alive() and not t.name.startswith('QueueFeeder')
                and not t.name.startswith('ExecutorManager') and not type(t).__module__.startswith('joblib')
                and 'interrupt' not in t.name]

    stop = time.monotonic() + 10
    while lingering() and time.monotonic() < stop:
        time.sleep(.01)
    after = dict(e='after', memory=sum(os.path.exists(f'/dev/shm/{v}') for v in shm), threads=len(lingering()), busy=False)
    last = [time.monotonic()]

    def case():
        # events which come well after the end of the call
        after['busy'] = any(e['ns'] > end['ns'] + 3e9 for e in events())
        out = []
        for e in ev:
            if e['e'] != 'tick':
                out.append({**{k: v for k, v in e.items() if k not in ('ns', 'shm', 'status')}, 'us': (e['ns'] - t0) // 1000})
        return dict(what='call', n=x['n'], jobs=x['jobs'] if x['jobs'] > 0 else os.cpu_count() + 1 + x['jobs'], timed=x['timed'],
                    us=int((x['timeout'] or 0) * 1e6), args=[v[:x['n']] for v in x['lists']], interrupt=x['style'] == 'interrupt',
                    ev=[*out, {k: v for k, v in end.items() if k != 'ns'}, after], call=repr(x))

    unfinished = sum(e['e'] == 'start' for e in ev) > sum(e['e'] in ('done', 'fail') for e in ev)
    broken = after['threads'] or any(e['e'] == 'gaveup' for e in ev)
    return case, unfinished or end.get('how') != 'returned', broken


RANGES = dict(b=(-128, 127), h=(-2**15, 2**15 - 1), i=(-2**31 + 1, 2**31 - 1), q=(-2**31 + 1, 2**31 - 1), B=(0, 255), H=(0, 65535),
              d=(-10**9, 10**9), f=(-2**24, 2**24))


def buffer_case(rng):
    from tnco.parallel import Buffer
    dt = rng.choice(list(RANGES))
    lo, hi = RANGES[dt]
    num = lambda: rng.choice([lo, hi, 0, 1, rng.randint(lo, hi)])
    n = rng.choice([1, 2, 3, 5, 9, 100])
    init = [num() for _ in range(n)]
    conv = (lambda v: v) if rng.random() < .5 else (lambda v: float(v)) if dt in 'fd' else (lambda v: v)
    size = rng.random() < .2
    c = dict(what='buffer', init=[0] * n if size else init, ev=[], dtype=dt)
    b = None
    try:
        b = Buffer(n if size else (iter(init) if rng.random() < .3 else init), dt)
        if len(b) != n or b.dtype != dt:
            c['ev'].append(dict(e='wrong'))
        for _ in range(rng.randint(3, 20)):
            p = rng.choice([0, n - 1, n, n + 3, rng.randrange(n)])
            r = rng.random()
            if r < .15:
                c['ev'].append(dict(e='all', q=[int(v) for v in b]))
            elif r < .55:
                e = dict(e='get', p=p, ok=True, v=0)
                try:
                    e['v'] = int(b[p])
                except IndexError:
                    e['ok'] = False
                c['ev'].append(e)
            else:
                e = dict(e='set', p=p, ok=True, v=num())
                try:
                    b[p] = conv(e['v'])
                except IndexError:
                    e['ok'] = False
                c['ev'].append(e)
        c['ev'].append(dict(e='all', q=[int(v) for v in b]))
    except Exception as e:
        c['ev'].append(dict(e=f'{type(e).__name__}: {e}'))
    finally:
        if b is not None:
            b.shm.unlink()
            b.shm.close()
    return c


CFG = ('SPECIFICATION Spec\nCONSTANTS N = {} Jobs = {}\nINVARIANTS Results Verdict Nothing Bounded Stops Memory\n'
       'PROPERTIES Ends Told\nCHECK_DEADLOCK FALSE\n')


def run(ck):
    # interrupts have to arrive even if the shell which started this ignores them
    signal.signal(signal.SIGINT, signal.default_int_handler)
    ck.load_core()
    for n, j in [(2, 1), (3, 1), (3, 2)] if ck.quick else [(3, 1), (3, 2), (3, 3), (4, 2)]:
        ck.model_check('MCParallel', CFG.format(n, j), name=f'MCParallel N={n} Jobs={j}', workers=4, timeout=3000)
    rng = ck.rng
    plan = []
    for parallel, m in ((False, ck.size(60, 600)), (True, ck.size(44, 500))):
        styles = ['plain'] * 5 + ['timeout'] * 4 + ['late', 'fail', 'fail', 'interrupt']
        plan += [gen(rng, parallel, styles[q % len(styles)]) for q in range(m)]
    done, wait = [], False
    for j, x in enumerate(plan):
        case, w, broken = record(ck, x, j)
        done.append(case)
        wait = w or wait
        if broken:
            break
    if wait:
        time.sleep(4)
    cases = [c() for c in done]
    cases += [buffer_case(rng) for _ in range(ck.size(300, 5000))]
    ck.events += sum(len(c['ev']) for c in cases)
    for c, k, clauses in ck.validate('ParallelTrace', cases):
        x = cases[c]
        e = x['ev'][k - 1] if k else {}
        ck.report(f'{x["what"]} {x.get("call", "")[:300]} event {k} {e}: {", ".join(clauses)}', x, clauses=clauses, module='ParallelTrace')
    ck.sample({k: v for k, v in cases[0].items() if k != 'call'})
    ck.extra['calls'] = dict(total=len(plan), parallel=sum(x['parallel'] for x in plan),
                             **{s: sum(x['style'] == s for x in plan) for s in ('plain', 'timeout', 'late', 'fail', 'interrupt')})
    ck.assumptions += ['a task which runs on is given 3 s after the call to end before it counts as outliving it',
                       "joblib's pool of idle processes is kept between calls by design"]
