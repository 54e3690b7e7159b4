"""Makes 'tnco_core' (the C++ extension) of /repo's *current* tree importable.

The installed extension is used only if it provably is the build of the current
C++ sources: harness/core_builds.json maps the hash of the preprocessed sources
to the hash of the extension that build.sh makes of them.  In any other case the
sources are compiled here, into a private directory, and imported from there.
"""
import glob
import hashlib
import importlib.machinery
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import time
from pathlib import Path

REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
HERE = Path(__file__).resolve().parent
VENV = Path('/opt/venv/lib/python3.12/site-packages')
FLAGS = [
    '-std=c++17', '-fPIC', '-fvisibility=hidden', f'-I{REPO}/include',
    '-isystem', '/usr/include/python3.12', '-isystem',
    str(VENV / 'pybind11/include')
]
CXX = os.environ.get('VERIF_CXX', 'clang++')


def _sha(data):
    return hashlib.sha256(data).hexdigest()


def source_key():
    """Hash of the preprocessed translation unit (system headers included)."""
    pre = subprocess.run(
        ['g++', '-O1', *FLAGS, '-E', '-P', str(REPO / 'include/tnco/main.cpp')],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        return None
    return _sha(pre.stdout)


def installed():
    xs = sorted(glob.glob(str(VENV / 'tnco_core*.so')))
    return Path(xs[0]) if xs else None


def known_builds():
    p = HERE / 'core_builds.json'
    return json.loads(p.read_text()) if p.exists() else {}


def build(out_dir):
    """Compile the current sources; returns the path of the extension."""
    out_dir = Path(out_dir)
    out_dir.mkdir(parents=True, exist_ok=True)
    obj = out_dir / 'core.o'
    so = out_dir / 'tnco_core.cpython-312-x86_64-linux-gnu.so'
    t = time.time()
    subprocess.run([CXX, '-O0', '-w', *FLAGS, '-c',
                    str(REPO / 'include/tnco/main.cpp'), '-o', str(obj)], check=True)
    subprocess.run([CXX, '-shared', str(obj), '-o', str(so), '-lmpfr', '-lgmp'], check=True)
    obj.unlink()
    return so, time.time() - t


def locate(work):
    """Path of an extension which is a build of the current sources, and how it was obtained."""
    key = source_key()
    so = installed()
    cache = os.environ.get('VERIF_CORE_CACHE')
    if key and so is not None and _sha(so.read_bytes()) in known_builds().get(key, []):
        return so, 'installed'
    if key and cache and (p := Path(cache) / key /
                          'tnco_core.cpython-312-x86_64-linux-gnu.so').exists():
        return p, 'cached'
    so, dt = build(Path(work) / 'core')
    if key and cache:
        d = Path(cache) / key
        d.mkdir(parents=True, exist_ok=True)
        shutil.copy(so, d / so.name)
    return so, f'compiled in {dt:.0f}s'


def load(so):
    """Import the given extension as 'tnco_core', and /repo's 'tnco'."""
    sys.dont_write_bytecode = True
    loader = importlib.machinery.ExtensionFileLoader('tnco_core', str(so))
    spec = importlib.util.spec_from_file_location('tnco_core', str(so), loader=loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['tnco_core'] = mod
    loader.exec_module(mod)
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    import tnco
    assert Path(tnco.__file__).resolve().is_relative_to(REPO.resolve()), tnco.__file__
    # The same for the processes which the code under test starts
    os.environ.update(VERIF_CORE_SO=str(so), VERIF_REPO_PATH=str(REPO), PYTHONDONTWRITEBYTECODE='1',
                      PYTHONPATH=':'.join([str(HERE / 'site'), *filter(None, [os.environ.get('PYTHONPATH')])]))
    return mod


if __name__ == '__main__':
    # Record the installed extension as the build of the current sources
    builds = known_builds()
    builds.setdefault(source_key(), [])
    h = _sha(installed().read_bytes())
    if h not in builds[source_key()]:
        builds[source_key()].append(h)
    (HERE / 'core_builds.json').write_text(json.dumps(builds, indent=1, sort_keys=True) + '\n')
    print(source_key(), h)
