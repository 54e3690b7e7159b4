"""Index names of several kinds for index numbers."""
import contextlib
import functools
import io



def name_map(rng, xs, kind=None):
    kind = kind or rng.choice(['str', 'int', 'tuple', 'mixed'])
    f = dict(str=lambda x: f'i{x}', int=lambda x: x * 7 - 20, tuple=lambda x: ('q', x))
    mp = {x: f[kind if kind != 'mixed' else rng.choice(sorted(f))](x) for x in xs}
    return mp, {v: k for k, v in mp.items()}


def loud(rng, p=.015):
    """Sometimes ask for progress bars (which go to the standard error and change nothing)."""
    return dict(verbose=rng.choice([1, 1, 2, 3])) if rng.random() < p else {}


def hushed(f):
    """Without what it prints on the standard error."""
    @functools.wraps(f)
    def g(*args, **kw):
        with contextlib.redirect_stderr(io.StringIO()):
            return f(*args, **kw)
    return g
