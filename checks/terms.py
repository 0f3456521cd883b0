"""Hash-consed symbolic terms and the interval domain used by the abstract interpreter."""
import math

INF = math.inf


class Term:
    __slots__ = ('op', 'a', 'id', 'vol', '_r')
    tab = {}

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    key = (op,) + a
    # distinguish 1 / 1.0 / True is not wanted: they denote the same constant
    t = Term.tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(Term.tab)
        v = frozenset()
        for x in a:
            v = v | _vol(x)
        if op in ('sym', 'phi'):
            v = v | frozenset((t.id,))
        t.vol = v
        Term.tab[key] = t
    return t


def _vol(x):
    if isinstance(x, Term):
        return x.vol
    if isinstance(x, tuple):
        v = frozenset()
        for y in x:
            v = v | _vol(y)
        return v
    return frozenset()


def show(t, depth=0):
    if isinstance(t, tuple):
        return '.'.join(show(x, depth + 1) if isinstance(x, (Term, tuple)) else str(x) for x in t)
    if not isinstance(t, Term):
        return str(t)
    if depth > 8:
        return '..'
    o, a = t.op, t.a
    if o == 'k':
        return repr(a[0])
    if o == 's':
        return repr(a[0])
    if o == 'lin':
        s = ' + '.join((f'{c}*' if c != 1 else '') + show(x, depth + 1) for x, c in a[0])
        return '(' + s + (f' + {a[1]}' if a[1] else '') + ')'
    if o == 'cmp':
        return f'({show(a[1], depth+1)} {a[0]} {show(a[2], depth+1)})'
    if o == 'sym':
        return f'${a[1]}#{a[0]}'
    if o == 'phi':
        return f'phi#{t.id}'
    if o == 'init':
        return f'init[{show(a[0])}]'
    if o == 'fn':
        return a[0] + '(' + ','.join(show(x, depth + 1) for x in a[1:]) + ')'
    return o + '(' + ','.join(show(x, depth + 1) for x in a) + ')'


def K(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and math.isfinite(v) and v == int(v) and abs(v) < 2**53:
        v = int(v)
    return mk('k', v)


def S(v):
    return mk('s', v)


_cnt = [0]


def fresh(label, lo=None, hi=None, nan=False, isint=False):
    _cnt[0] += 1
    return mk('sym', _cnt[0], label, lo, hi, nan, isint)


def fn(name, *args):
    return mk('fn', name, *args)


TRUE = K(1)
FALSE = K(0)


def is_k(t):
    return t.op == 'k'


def isnum(t):
    return t.op == 'k' and isinstance(t.a[0], (int, float))


# ---- linear forms
def lin_parts(t):
    if t.op == 'lin':
        return t.a
    if isnum(t):
        return ((), t.a[0])
    return (((t, 1),), 0)


def _fold(v):
    if isinstance(v, float) and math.isfinite(v) and v == int(v) and abs(v) < 2**53:
        return int(v)
    return v


def mk_lin(d, const):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))
    if not items:
        return K(_fold(const))
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', items, _fold(const))


def add(a, b, sb=1):
    if isnum(b) and isinstance(b.a[0], float) and not math.isfinite(b.a[0]):
        return fn('+', a, K(sb * b.a[0]))
    if isnum(a) and isinstance(a.a[0], float) and not math.isfinite(a.a[0]):
        return fn('+', a, scale(b, sb))
    ia, ca = lin_parts(a)
    ib, cb = lin_parts(b)
    d = dict(ia)
    for k, v in ib:
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(d, ca + sb * cb)


def sub(a, b):
    return add(a, b, -1)


def scale(a, c):
    if c == 0:
        return K(0)
    if isinstance(c, float) and not math.isfinite(c):
        return fn('*', a, K(c))
    ia, ca = lin_parts(a)
    return mk_lin({k: v * c for k, v in ia}, ca * c)


def mul(a, b):
    if isnum(a):
        return scale(b, a.a[0])
    if isnum(b):
        return scale(a, b.a[0])
    # product of atoms, commutative; pull out constants of single-term forms
    ca, cb = 1, 1
    if a.op == 'lin' and a.a[1] == 0 and len(a.a[0]) == 1:
        a, ca = a.a[0][0]
    if b.op == 'lin' and b.a[1] == 0 and len(b.a[0]) == 1:
        b, cb = b.a[0][0]
    # constant factor distributes over a small linear form only if the other side is atomic: keep product opaque
    fs = []
    for x in (a, b):
        if x.op == 'fn' and x.a[0] == '*':
            fs.extend(x.a[1:])
        else:
            fs.append(x)
    fs.sort(key=lambda x: x.id)
    return scale(fn('*', *fs), ca * cb)


# ---- intervals: (lo, hi, lo_open, hi_open, nan, isint)
class Iv:
    __slots__ = ('lo', 'hi', 'lo_open', 'hi_open', 'nan', 'isint')

    def __init__(s, lo=-INF, hi=INF, lo_open=False, hi_open=False, nan=True, isint=False):
        if isint:
            nan = False
            if lo_open and math.isfinite(lo):
                lo = math.floor(lo) + 1
                lo_open = False
            if hi_open and math.isfinite(hi):
                hi = math.ceil(hi) - 1
                hi_open = False
            if math.isfinite(lo):
                lo = math.ceil(lo)
            if math.isfinite(hi):
                hi = math.floor(hi)
        s.lo, s.hi, s.lo_open, s.hi_open, s.nan, s.isint = lo, hi, lo_open, hi_open, nan, isint

    def key(s):
        return (s.lo, s.hi, s.lo_open, s.hi_open, s.nan)

    def __eq__(s, o):
        return isinstance(o, Iv) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        return ('(' if s.lo_open else '[') + f'{s.lo},{s.hi}' + (')' if s.hi_open else ']') + ('|nan' if s.nan else '')

    def empty_num(s):
        return s.lo > s.hi or (s.lo == s.hi and (s.lo_open or s.hi_open))

    def empty(s):
        return s.empty_num() and not s.nan

    def is_top(s):
        return s.lo == -INF and s.hi == INF and not s.lo_open and not s.hi_open and (s.nan or s.isint)

    def const(s):
        return s.lo if (s.lo == s.hi and not s.nan and not s.lo_open and not s.hi_open) else None

    def subset(s, o):
        if s.nan and not o.nan:
            return False
        if s.empty_num():
            return True
        lo_ok = s.lo > o.lo or (s.lo == o.lo and (not o.lo_open or s.lo_open))
        hi_ok = s.hi < o.hi or (s.hi == o.hi and (not o.hi_open or s.hi_open))
        return lo_ok and hi_ok


TOP = Iv()
ITOP = Iv(isint=True)


def pt(v):
    if isinstance(v, float) and math.isnan(v):
        return Iv(1, 0, nan=True)
    return Iv(v, v, nan=False, isint=isinstance(v, int))


def meet(a, b):
    if a.lo > b.lo or (a.lo == b.lo and a.lo_open):
        lo, lo_o = a.lo, a.lo_open
    else:
        lo, lo_o = b.lo, b.lo_open
    if a.hi < b.hi or (a.hi == b.hi and a.hi_open):
        hi, hi_o = a.hi, a.hi_open
    else:
        hi, hi_o = b.hi, b.hi_open
    return Iv(lo, hi, lo_o, hi_o, a.nan and b.nan, a.isint or b.isint)


def hull(a, b):
    if a.empty_num():
        return Iv(b.lo, b.hi, b.lo_open, b.hi_open, a.nan or b.nan, b.isint)
    if b.empty_num():
        return Iv(a.lo, a.hi, a.lo_open, a.hi_open, a.nan or b.nan, a.isint)
    if a.lo < b.lo or (a.lo == b.lo and not a.lo_open):
        lo, lo_o = a.lo, a.lo_open
    else:
        lo, lo_o = b.lo, b.lo_open
    if a.hi > b.hi or (a.hi == b.hi and not a.hi_open):
        hi, hi_o = a.hi, a.hi_open
    else:
        hi, hi_o = b.hi, b.hi_open
    return Iv(lo, hi, lo_o, hi_o, a.nan or b.nan, a.isint and b.isint)


def widen(old, new):
    lo, lo_o, hi, hi_o = new.lo, new.lo_open, new.hi, new.hi_open
    if old.empty_num():
        return new
    if new.lo < old.lo or (new.lo == old.lo and old.lo_open and not new.lo_open):
        for th in (1, 0, -1, -2):
            if th <= new.lo:
                lo, lo_o = th, False
                break
        else:
            lo, lo_o = -INF, False
    if new.hi > old.hi or (new.hi == old.hi and old.hi_open and not new.hi_open):
        for th in (-1, 0, 1):
            if th >= new.hi:
                hi, hi_o = th, False
                break
        else:
            hi, hi_o = INF, False
    return Iv(lo, hi, lo_o, hi_o, new.nan, new.isint)


def iv_add(a, b):
    if a.empty_num() or b.empty_num():
        return Iv(1, 0, nan=True)
    def s(x, y):
        r = x + y
        return r
    lo = a.lo + b.lo if not (math.isinf(a.lo) and math.isinf(b.lo) and a.lo != b.lo) else -INF
    hi = a.hi + b.hi if not (math.isinf(a.hi) and math.isinf(b.hi) and a.hi != b.hi) else INF
    nan = a.nan or b.nan
    # inf - inf
    if (a.hi == INF and not a.hi_open and b.lo == -INF and not b.lo_open) or (b.hi == INF and not b.hi_open and a.lo == -INF and not a.lo_open):
        nan = True
    i = a.isint and b.isint
    return Iv(lo, hi, a.lo_open or b.lo_open, a.hi_open or b.hi_open, nan and not i, i)


def iv_scale(a, c):
    if c == 0:
        return pt(0)
    i = a.isint and isinstance(c, int)
    if c > 0:
        return Iv(a.lo * c, a.hi * c, a.lo_open, a.hi_open, a.nan, i)
    return Iv(a.hi * c, a.lo * c, a.hi_open, a.lo_open, a.nan, i)


def iv_mul(a, b):
    i = a.isint and b.isint
    if a.empty_num() or b.empty_num():
        return Iv(1, 0, nan=True)
    nan = a.nan or b.nan
    def hasinf(x): return (x.hi == INF and not x.hi_open) or (x.lo == -INF and not x.lo_open)
    def has0(x): return x.lo <= 0 <= x.hi and not (x.lo == 0 and x.lo_open) and not (x.hi == 0 and x.hi_open)
    if not i and ((hasinf(a) and has0(b)) or (hasinf(b) and has0(a))):
        nan = True
    c = []
    for x, xo in ((a.lo, a.lo_open), (a.hi, a.hi_open)):
        for y, yo in ((b.lo, b.lo_open), (b.hi, b.hi_open)):
            if (x == 0 and math.isinf(y)) or (y == 0 and math.isinf(x)):
                p = 0
            else:
                p = x * y
            op = (xo or yo)
            if p == 0:
                # attained if a zero endpoint is closed
                op = not ((x == 0 and not xo) or (y == 0 and not yo))
            c.append((p, op))
    lo = min(p for p, _ in c)
    hi = max(p for p, _ in c)
    lo_o = all(o for p, o in c if p == lo)
    hi_o = all(o for p, o in c if p == hi)
    return Iv(lo, hi, lo_o, hi_o, nan and not i, i)
