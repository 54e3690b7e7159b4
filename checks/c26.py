"""Extended-precision numbers against spec/Real.tla."""
import copy
import math
import operator
import pickle
import re
import sys
from fractions import Fraction

from harness.optrun import limbs

sys.set_int_max_str_digits(0)
PREC = 1024
NAN = dict(k='nan', s=0, m=[], e=0)
OPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv)
INPLACE = dict(add=operator.iadd, sub=operator.isub, mul=operator.imul, div=operator.itruediv)
RELS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
BASE = dict(prec=PREC, error='', a=NAN, b=NAN, r=NAN, h=0, odd=[], zeros=0, rel={}, s=0, digits=[], places=0, refused=False)


class NotANumber(RuntimeError):
    pass


def num(s, v, prec=PREC):
    """Encoding of (-1)^s v for a non-negative dyadic fraction v."""
    if v == 0:
        return dict(k='num', s=s, m=[], e=0)
    m, d = v.numerator, v.denominator
    assert d & (d - 1) == 0
    e = -(d.bit_length() - 1)
    tz = (m & -m).bit_length() - 1
    m, e = m >> tz, e + tz
    up = prec - m.bit_length()
    if up < 0:
        raise NotANumber(f'{m} * 2^{e} has more than {prec} bits')
    return dict(k='num', s=s, m=limbs(m << up), e=e - up)


def dec(t):
    """(sign, digits, places) of decimal text."""
    g = re.fullmatch(r'([+-]?)(\d+)(?:\.(\d*))?(?:[eE]([+-]?\d+))?', t)
    if not g:
        raise NotANumber(t[:80])
    frac = g[3] or ''
    return int(g[1] == '-'), int(g[2] + frac), len(frac) - int(g[4] or 0)


def enc(x):
    """The exact value of a number of the real code, from decimal text with as many digits as it takes."""
    t = format(x, '.6000f')
    u = t.lstrip('+-').lower()
    if u in ('nan', 'inf'):
        return dict(k=u, s=int(u == 'inf' and t[0] == '-'), m=[], e=0)
    s, n, p = dec(t)
    return num(s, Fraction(n, 10**p))


def encd(x):
    """A double, with 53 bits or as a multiple of 2^-1074."""
    s = int(math.copysign(1, x) < 0)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return dict(k='inf', s=s, m=[], e=0)
    if 0 < abs(x) < 2.0**-1022:
        return dict(k='num', s=s, m=limbs(int(abs(Fraction(x)) * 2**1074)), e=-1074)
    return num(s, abs(Fraction(x)), 53)


SPECIAL = [0.0, -0.0, math.inf, -math.inf, math.nan, 1.0, -1.0]


def gen_double(rng):
    r = rng.random()
    if r < .25:
        return rng.choice(SPECIAL)
    if r < .5:
        return float(rng.randint(-20, 20))
    if r < .6:
        return math.ldexp(rng.choice([1, -1]) * rng.randint(1, 2**53), rng.randint(-120, 80))
    if r < .7:
        return rng.choice([-1, 1]) * math.ldexp(1, rng.randint(-60, 60))
    return rng.normalvariate(0, 10)


def value(rng):
    """A signed dyadic fraction which the type can represent, of various kinds."""
    r = rng.random()
    if r < .2:
        n = rng.randint(0, 30)
    elif r < .4:
        n = rng.getrandbits(rng.choice([53, 54, 64, 65, 128, 512]))
    elif r < .6:
        n = rng.getrandbits(PREC)
    elif r < .8:     # runs of ones and zeros
        n = sum((1 << b) * rng.choice([1, -1]) for b in rng.sample(range(PREC), rng.choice([1, 2, 3])))
    else:            # just below or above a power of two
        n = (1 << rng.choice([1, 10, 53, 64, 1000, 1023])) + rng.choice([-1, 1])
    e = rng.choice([0, 0, 0, -1, 1, -53, 64, -1024, rng.randint(-1100, 300)])
    return rng.choice([1, -1]) * abs(n) * Fraction(2)**e


def make(rng, v):
    """The number for a value, by several ways of writing it exactly."""
    from tnco_core import float1024 as F
    if isinstance(v, float):
        return F(v)
    if abs(v.numerator) < 2**53 and v.denominator < 2**53 and rng.random() < .7:
        if v.denominator == 1 and rng.random() < .5:
            return F(int(v))
        return F(float(v))
    d = v.denominator.bit_length() - 1
    n = abs(v.numerator) * 5**d       # n / 10^d
    t = str(n).rjust(d + 1, '0')
    t = (t[:-d] + '.' + t[-d:]) if d else t + rng.choice(['', '.', '.0'])
    if rng.random() < .3:
        t = f'{n}{rng.choice("eE")}{-d}'
    return F(('-' if v < 0 else rng.choice(['', '', '+'])) + t)


def operand(rng):
    v = gen_double(rng) if rng.random() < .4 else value(rng)
    return v, make(rng, v)


def ev(v):
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return encd(v)
        return num(int(math.copysign(1, v) < 0), abs(Fraction(v)))
    return num(int(v < 0), abs(v))


def case(rng):
    from tnco_core import float1024 as F
    c = dict(BASE)
    try:
        op = rng.choice(['add', 'sub', 'mul', 'div'] * 3 + ['pow', 'pow', 'neg', 'abs', 'same', 'rel', 'rel', 'class', 'double', 'double',
                                                           'read', 'write', 'refuse'])
        c['op'] = op
        v, a = operand(rng)
        c['a'] = ev(v)
        if op in OPS or op == 'rel':
            w, b = operand(rng)
            r = rng.random()
            if r < .15:
                w, b = v, a
            elif r < .35 and not isinstance(v, float):
                # close to the first operand
                w = v + rng.choice([1, -1, 0]) * Fraction(2)**(abs(v.numerator).bit_length() - v.denominator.bit_length() - rng.choice([PREC - 1, PREC, 1000, 53]))
                try:
                    num(0, abs(w))
                except NotANumber:
                    w = v
                b = make(rng, w)
            elif r < .6:
                # a Python number on either side
                w = gen_double(rng)
                b = int(w) if math.isfinite(w) and w == int(w) and abs(w) < 2**53 and (w or math.copysign(1, w) > 0) and rng.random() < .5 else w
                if rng.random() < .5:
                    v, w, a, b = w, v, b, a
                    c['a'] = ev(v)
            c['b'] = ev(w)
            if op == 'rel':
                c['rel'] = {x: bool(getattr(operator, x)(a, b)) for x in RELS}
            elif isinstance(a, F) and rng.random() < .25:
                c['r'] = enc(INPLACE[op](F(a), b))
            else:
                c['r'] = enc(OPS[op](a, b))
        elif op == 'pow':
            h = rng.choice([0, 1, -1, 2, -2, 4, -4, 6, 3, -3, 5, 8, 10, 20, -6, 60, 64])
            if not isinstance(v, float) and h not in (0, 1, -1, 2, -2, 4, 3):
                v = Fraction(rng.choice([-1, 1]) * rng.randint(1, 2**rng.choice([2, 8, 20])), 2**rng.choice([0, 0, 3]))
                a = make(rng, v)
                c['a'] = ev(v)
            if isinstance(v, float) and math.isfinite(v) and abs(h) > 20:
                h = rng.choice([2, 4, 1])
            c['h'] = h
            m = sum(d * 10000**i for i, d in enumerate(c['a']['m']))
            z = (m & -m).bit_length() - 1 if m else 0
            c.update(odd=limbs(m >> z), zeros=z)
            c['r'] = enc(a**(h / 2) if h % 2 else a**(h // 2 if rng.random() < .5 else h / 2))
        elif op == 'neg':
            c['r'] = enc(-a)
        elif op == 'abs':
            c['r'] = enc(abs(a))
        elif op == 'same':
            how = rng.choice(['+', 'copy', 'pickle', 'deepcopy', 'F'])
            c['r'] = enc({'+': lambda: +a, 'copy': lambda: copy.copy(a), 'deepcopy': lambda: copy.deepcopy(a), 'F': lambda: F(a),
                          'pickle': lambda: pickle.loads(pickle.dumps(a, rng.choice([2, 3, 4, 5])))}[how]())
        elif op == 'class':
            c.update(nan=bool(a.isnan()), inf=bool(a.isinf()), sign=bool(a.signbit()))
        elif op == 'double':
            r = rng.random()
            if r < .5:
                # around the doubles: halfway, and next to it
                x = abs(gen_double(rng)) if rng.random() < .6 else rng.choice(
                    [2.0**-1022, 2.0**-1074, 5e-324 * 3, 2.0**-1030 * 1.5, 1.7976931348623157e308, 2.0**1023, 1.0, 2.0**-1023])
                if math.isfinite(x) and x:
                    u = Fraction(math.ulp(x))
                    v = rng.choice([1, -1]) * (Fraction(x) + rng.choice([0, u / 2, u / 2, -u / 2, u / 4]) + rng.choice([0, 0, 1, -1]) * u / 2**rng.choice([5, 11, 12, 60]))
                    a = make(rng, v)
                    c['a'] = ev(v)
            elif r < .6:
                v = Fraction(2)**rng.choice([1023, 1024, 1025, 1100, -1074, -1075, -1076, -1090]) * rng.choice([1, -1])
                a = make(rng, v)
                c['a'] = ev(v)
            c['r'] = encd(float(a))
        elif op == 'read':
            n = rng.getrandbits(rng.choice([4, 60, 1000, 1030])) * rng.choice([1, 1, 10])
            p = rng.choice([0, 1, 3, 20, 300, -3, -50])
            s = rng.choice(['', '-'])
            t = str(n)
            if p > 0 and rng.random() < .6:
                t = t.rjust(p + 1, '0')
                t = t[:-p] + '.' + t[-p:]
            else:
                t += f'e{-p}'
            c.update(s=int(s == '-'), digits=limbs(n), places=p, r=enc(F(s + t)))
        elif op == 'write':
            if isinstance(v, float) and not math.isfinite(v):
                v, a = Fraction(5, 2), F(2.5)
                c['a'] = ev(v)
            how = rng.choice(['str', 'repr', 'f', 'f', 'e', 'E', 'F', ''])
            if how in ('str', 'repr', ''):
                t = str(a) if how == 'str' else repr(a) if how == 'repr' else f'{a}'
                if dec(t)[2] < 300:
                    c['error'] = f'only {dec(t)[2]} places'
            else:
                t = format(a, f'{rng.choice(["", "+"])}.{rng.choice([0, 1, 2, 3, 10, 60])}{how}')
            s, n, p = dec(t)
            c.update(s=s, digits=limbs(n), places=p)
        elif op == 'refuse':
            t = rng.choice(['', 'abc', '12x', '1..2', '--1', '1e', '0x', '1 2', 'one', '1,5', '.', 'e5', '+'])
            c['text'] = t
            try:
                F(t)
            except (ValueError, TypeError, RuntimeError):
                c['refused'] = True
    except NotANumber as x:
        c['error'] = f'not a number of this type: {x}'[:200]
    except Exception as x:
        c['error'] = f'{type(x).__name__}: {x}'[:300]
    return c


def some(args):
    import random
    sys.set_int_max_str_digits(0)
    seed, n = args
    rng = random.Random(seed)
    return [case(rng) for _ in range(n)]


def show(c, k):
    f = lambda x: x['k'] if x['k'] != 'num' else '{}{} * 2^{}'.format('-' * x['s'], sum(d * 10000**i for i, d in enumerate(x['m'])), x['e'])
    return f'{c["op"]} of {f(c["a"])} and {f(c["b"])} h={c["h"]}/2 gives {f(c["r"])} {c["rel"]} {c["error"]} {c.get("text", "")}'


def run(ck):
    ck.load_core()
    from tnco_core import float1024 as F
    assert F().prec == PREC
    ck.model_check('MCReal', 'SPECIFICATION Spec\nCONSTANTS P = 3 E = {} Q = {}\nINVARIANTS Functional Commutes Identities Roots Order Rounding\n'
                   'CHECK_DEADLOCK FALSE\n'.format(*ck.size((0, 10), (2, 40))), workers=4, timeout=3000)
    seeds = [(ck.rng.getrandbits(60), 100) for _ in range(ck.size(32, 300))]
    cases = [c for cs in ck.pmap(some, seeds) for c in cs]
    ck.events += len(cases)
    ck.check_cases('RealTrace', cases, show)
    ck.sample({k: v for k, v in cases[0].items() if k not in ('a', 'b', 'r')})
    ck.extra['operations'] = {op: sum(c.get('op') == op for c in cases) for op in sorted({c.get('op', '?') for c in cases})}
    ck.assumptions += ['Python numbers taking part in an operation are doubles (integers below 2^53)']
