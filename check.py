#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree."""
import faulthandler
import importlib
import json
import os
import re
import signal
import sys
import tempfile
import time
import traceback

ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', PYTHONWARNINGS='ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
# A crash of the process is a crash of the code under test
CRASH = {signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS, signal.SIGILL}


def work(prop, tier, seed, dump):
    faulthandler.enable(open(dump, 'w'))
    faulthandler.register(signal.SIGUSR1, open(dump + '.hang', 'w'), all_threads=True)
    from harness.framework import Check, CoreCrash
    ck = Check(prop, tier, seed)
    try:
        mod = importlib.import_module(f'checks.{prop.lower()}')
        ck.start_core()
        mod.run(ck)
        rc = ck.finish()
    except CoreCrash as e:
        ck.violation(str(e), traceback.format_exc())
        rc = ck.finish()
    except Exception as e:
        traceback.print_exc()
        # What the code under test raised where a driver does not expect it to fail
        text = getattr(e.__cause__, 'tb', None) or traceback.format_exc()
        if text.rfind('File "/repo/') > text.rfind(f'File "{HERE}/'):
            ck.violation(f'the code under test failed: {type(e).__name__}: {str(e)[:300]}', text)
        # A violation which was already established stands
        if ck.violations:
            try:
                rc = ck.finish()
            except Exception:
                rc = 2
        else:
            rc = 2
    finally:
        ck.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def stack(pid, dump):
    """Where the main thread of the working process is, innermost frame first."""
    f = dump + '.hang'
    n = os.path.getsize(f)
    os.kill(pid, signal.SIGUSR1)
    time.sleep(2)
    text = open(f).read()[n:]
    main = text.split('Thread 0x')[-1] if 'Current thread' not in text else text[text.index('Current thread'):]
    return re.findall(r'File "([^"]+)", line (\d+) in (\S+)', main)


def report(prop, tier, seed, what, detail):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'replay_{prop}.json')
    with open(p, 'w') as f:
        json.dump([dict(what=what, case=detail)], f, indent=1)
    with open(os.path.join(d, f'{prop}.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking',
                       coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[what]),
                       assumptions=[], wall_s=0, violations=1), f)
    print('  ', what, '\n', detail[:3000])
    print(f'VIOLATION property={prop} replay={p}')
    return 1


def supervise(prop, tier, seed):
    d = tempfile.mkdtemp(prefix='verif_sup_')
    dump = os.path.join(d, 'dump')
    # the working process' temporary files go where they are removed even if it crashes
    os.environ['TMPDIR'] = d
    pid = os.fork()
    if pid == 0:
        tempfile.tempdir = None
        os.setpgid(0, 0)
        work(prop, tier, seed, dump)
    limit = float(os.environ.get('VERIF_HANG', 540 if tier == 'quick' else 36000))
    t0, before, same, rc = time.time(), None, 0, None
    step = .05
    try:
        while rc is None:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASH:
                    s = signal.Signals(os.WTERMSIG(st)).name
                    rc = report(prop, tier, seed, f'the code under test crashed ({s})', open(dump).read())
                else:
                    rc = os.waitstatus_to_exitcode(st)
                    rc = rc if rc >= 0 else 2
            elif time.time() - t0 > limit:
                at = stack(pid, dump)
                # the frames up to the first one in /repo, from outside, say what was called
                at.reverse()
                repo = [j for j, x in enumerate(at) if x[0].startswith('/repo/')]
                call = at[:repo[0] + 1] if repo else None
                same = same + 1 if call and call == before else 0
                before = call
                if same == 12:
                    rc = report(prop, tier, seed, 'the code under test does not return',
                                '\n'.join(f'{f}:{n} {g}' for f, n, g in at))
                limit += 5
            else:
                time.sleep(step)
                step = min(.5, step * 1.2)
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return rc


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()) or not sys.executable.startswith('/opt/venv'):
        os.environ.update(ENV)
        os.environ.pop('PYTHONPATH', None)
        os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__), *sys.argv[1:]])
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rc = supervise(prop, tier, seed)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
