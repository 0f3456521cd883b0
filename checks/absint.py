"""Abstract interpreter over the resolved program dumped by nrgx.

Domain: symbolic linear terms + intervals with a NaN flag, strings as concatenation terms, objects
as field maps, streams/containers as small summaries.  Project functions are inlined
(context-sensitive, bounded depth), loops are solved to a fixpoint with widening.  Nothing is
executed and no solver is used: a branch condition refines intervals, nothing else.
"""
import json
import math
import re
import sys
from terms import *

sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    pass


class L(tuple):
    """lvalue / object location; cur: which element of a summarised container (a term), if known"""
    cur = None


def LC(loc, cur):
    x = L(loc)
    if cur is not None:
        x.cur = cur
    return x


def mkaddr(v):
    """address of an lvalue, remembering which element it designates"""
    return mk('addr', tuple(v), v.cur) if isinstance(v, L) and v.cur is not None else mk('addr', tuple(v))


def unaddr(r):
    return LC(r.a[0], r.a[1] if len(r.a) > 1 else None)


def inst(t, cur):
    """the value that one particular element of a summarised container has"""
    if t.op in ('init', 'phi', 'lin', 'fn', 'sym', 'inst') and (t.vol or t.op == 'init' or t.op == 'phi'):
        if t.op == 'fn' and t.a[0] in ('lowprec', 'f32', 'endptr'):
            return t
        return mk('inst', t, cur)
    return t


NOVAL = K(0)


def strip_t(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for s in (' const', ' &', ' &&', '&&', '&', ' *const', ):
            if s != ' *const' and t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
    return t


STREAMS = ('std::basic_ifstream<', 'std::basic_ofstream<', 'std::basic_fstream<', 'std::basic_istream<', 'std::basic_ostream<',
           'std::basic_iostream<', 'std::basic_stringstream<', 'std::basic_ostringstream<', 'std::basic_istringstream<', 'std::basic_ios<')
SEQ = ('std::vector<', 'std::list<', 'std::deque<', 'std::array<', 'std::set<', 'std::initializer_list<', 'std::unordered_set<', 'std::multiset<')
MAPS = ('std::map<', 'std::unordered_map<', 'std::multimap<')
UNSIGNED = ('unsigned long', 'unsigned int', 'unsigned char', 'unsigned short', 'unsigned long long', 'size_t')
INTS = UNSIGNED + ('int', 'long', 'short', 'char', 'long long', 'signed char', 'bool')
FLOATS = ('double', 'float', 'long double')


class Kinds:
    def __init__(self, prog):
        self.prog = prog
        self.c = {}

    def __call__(self, t):
        r = self.c.get(t)
        if r is None:
            r = self.c[t] = self._k(t)
        return r

    def _k(self, t0):
        t = strip_t(t0)
        if t.endswith('*') or t.endswith('*const'):
            return 'ptr'
        if t in FLOATS:
            return 'flt'
        if t in INTS:
            return 'int'
        if t.startswith(STREAMS):
            return 'stream'
        if t.startswith(SEQ):
            return 'seq'
        if t.startswith(MAPS):
            return 'map'
        if t.startswith('std::pair<') or t.startswith('std::tuple<'):
            return 'pair'
        if t.startswith('std::optional<'):
            return 'optional'
        if t.startswith(('std::unique_ptr<', 'std::shared_ptr<')):
            return 'uptr'
        if t.startswith(('std::basic_string<', 'std::basic_string_view<')):
            return 'str'
        if '[' in t and t.endswith(']'):
            return 'arr'
        if t in self.prog.classes:
            return 'class'
        if t in self.prog.enumtypes:
            return 'int'
        return 'other'


OBJ = ('stream', 'seq', 'map', 'pair', 'optional', 'class', 'arr')


class Fn:
    __slots__ = ('d', 'N', 'fid', 'q', 'n', 'file', 'line', 'params', 'body', 'kind', 'inits', 'pk')

    def __init__(self, d):
        self.d = d
        self.N = d['nodes']
        self.fid = d['fid']
        self.q = d['q']
        self.n = d['n']
        self.file = d['file']
        self.line = d['line']
        self.params = d['params']
        self.body = d['body']
        self.kind = d['kind']
        self.inits = d.get('inits')
        self.pk = d.get('pk')


IDKEYS = ('id', 'd', 'fid', 'parent', 'clsid', 'minit')


def shift_ids(o, off):
    """renumber declaration ids of a second translation unit"""
    if isinstance(o, dict):
        for k, v in o.items():
            if k in IDKEYS and isinstance(v, int) and not isinstance(v, bool):
                if v > 0:
                    o[k] = v + off
            elif isinstance(v, (dict, list)):
                shift_ids(v, off)
    else:
        for v in o:
            if isinstance(v, (dict, list)):
                shift_ids(v, off)


class Prog:
    def __init__(self, data, *more):
        for k, d in enumerate(more):
            shift_ids(d, (k + 1) * 10000000)
            gq = {g['q'] for g in data['globals']}
            cq = {c['t'] for c in data['classes']}
            data = {'errors': data['errors'] + d['errors'], 'functions': data['functions'] + d['functions'], 'classes': data['classes'] + [c for c in d['classes'] if c['t'] not in cq],
                    'globals': data['globals'] + [g for g in d['globals'] if g['q'] not in gq], 'enums': data['enums'] + d['enums']}
        self.multi = bool(more)
        self.errors = data['errors']
        self.fns = {}
        self.cut = [f for f in data['functions'] if f.get('cut')]
        data['functions'] = [f for f in data['functions'] if not f.get('cut')]
        for f in data['functions']:
            if not f.get('dep'):
                self.fns[f['fid']] = Fn(f)
        self.all = [Fn(f) for f in data['functions']]
        # a generic lambda that is only called by library code: its (first) instantiation stands for it
        bypk = {}
        for f in self.fns.values():
            if f.pk and f.kind == 'lambda':
                bypk.setdefault(f.pk, f)
        self.generic = {}
        for f in data['functions']:
            if f.get('dep') and f['kind'] == 'lambda' and f['fid'] not in self.fns and f.get('pk') in bypk:
                self.generic[f['fid']] = bypk[f['pk']]
        self.classes = {}
        for c in data['classes']:
            if not c.get('dep'):
                self.classes[c['t']] = c
        self.globals = {g['q']: g for g in data['globals']}
        self.glist = data['globals']
        self.enumtypes = {e['q'] for e in data['enums']}
        self.enums = {}
        for e in data['enums']:
            for c in e['c']:
                self.enums[e['q'] + '::' + c['n']] = c['v']
                self.enums[(e['q'].rsplit('::', 1)[0] + '::' if '::' in e['q'] else '') + c['n']] = c['v']
        self.kind = Kinds(self)
        self.byq = {}
        for f in self.fns.values():
            self.byq.setdefault(f.q, []).append(f)
        if self.multi:
            # calls to functions defined in another translation unit
            for f in self.all:
                for n in f.N:
                    x = n.get('fid')
                    if x is not None and x not in self.fns and n['k'] in ('call', 'mcall', 'ref'):
                        for g in self.byq.get(n.get('fn') or n.get('q'), []):
                            if len(g.params) == len(n.get('pt', g.params)):
                                n['fid'] = g.fid

    def fn_named(self, q):
        r = self.byq.get(q, [])
        return r[0] if r else None

    def main(self):
        return self.fn_named('main')


ARGV = mk('argv')


def argv_off(v):
    """offset of a pointer into argv, or None"""
    if v is ARGV:
        return K(0)
    if v.op == 'lin' and any(x is ARGV and c == 1 for x, c in v.a[0]):
        return sub(v, ARGV)
    return None


class St:
    __slots__ = ('env', 'own', 'facts')

    def __init__(self):
        self.env = {}
        self.own = set()
        self.facts = {}

    def copy(self):
        s = St()
        s.env = dict(self.env)
        self.own = set()
        s.facts = dict(self.facts)
        return s

    # --- raw
    def raw(self, loc):
        d = self.env.get(loc[0])
        if d is None:
            return None
        return d.get(loc[1:])

    def put(self, loc, val):
        b = loc[0]
        d = self.env.get(b)
        if d is None:
            d = self.env[b] = {}
            self.own.add(b)
        elif b not in self.own:
            d = self.env[b] = dict(d)
            self.own.add(b)
        d[loc[1:]] = val

    def kill(self, loc):
        b = loc[0]
        d = self.env.get(b)
        if d is None:
            return
        if len(loc) == 1:
            del self.env[b]
            self.own.discard(b)
            return
        p = loc[1:]
        n = len(p)
        if any(k[:n] == p for k in d):
            self.env[b] = {k: v for k, v in d.items() if k[:n] != p}
            self.own.add(b)

    def subs(self, loc):
        d = self.env.get(loc[0], {})
        p = loc[1:]
        n = len(p)
        return [(k[n:], v) for k, v in d.items() if k[:n] == p]

    def origin(self, loc):
        """(source loc, epoch) describing the symbolic initial contents at loc"""
        b = loc[0]
        d = self.env.get(b)
        p = loc[1:]
        if d is not None:
            for n in range(len(p), -1, -1):
                e = d.get(p[:n] + ('#ep',))
                if e is not None:
                    return (e.a[0] + p[n:], e.a[1])
        return (loc, K(0))

    def get(self, loc):
        v = self.raw(loc)
        if v is not None:
            return v
        src, ep = self.origin(loc)
        if ep.op == 'zero':
            return K(0)
        return mk('init', src, ep)

    def ghost(self, *key):
        return self.raw((('$',) + key,))

    def setghost(self, val, *key):
        self.put((('$',) + key,), val)

    def delghost(self, *key):
        self.kill((('$',) + key,))

    def ghosts(self, kind):
        return [(b[2:], d[()]) for b, d in self.env.items() if b[0] == '$' and len(b) > 1 and b[1] == kind and () in d]


class Out:
    __slots__ = ('n', 'b', 'c', 'r')

    def __init__(self, n=None):
        self.n = n or []
        self.b = []
        self.c = []
        self.r = []


class Frame:
    __slots__ = ('fn', 'ctx', 'depth', 'temps', 'parent', 'callnode')

    def __init__(self, fn, ctx, depth, parent=None, callnode=None):
        self.fn = fn
        self.ctx = ctx
        self.depth = depth
        self.temps = []
        self.parent = parent
        self.callnode = callnode

    def stack(self):
        r = []
        f = self
        while f is not None:
            r.append((f.fn.q, f.callnode))
            f = f.parent
        return r


BOOLOPS = ('cmp', 'not')
FN_RANGE = {
    'len': Iv(0, INF, hi_open=True, isint=True), 'size': Iv(0, INF, hi_open=True, isint=True),
    'atoi': ITOP, 'atol': ITOP, 'stoi': ITOP, 'strtol': ITOP, 'atoll': ITOP, 'stol': ITOP, 'stoul': ITOP, 'find': ITOP, 'trunc': ITOP,
    'abs': Iv(0, INF, nan=True), 'sqrt': Iv(0, INF, nan=True), 'exp': Iv(0, INF, nan=True), 'ch': Iv(-128, 255, isint=True),
    'isfinite': Iv(0, 1, isint=True), 'isnan': Iv(0, 1, isint=True), 'isinf': Iv(0, 1, isint=True), 'isnormal': Iv(0, 1, isint=True),
    'io': Iv(0, 1, isint=True), 'good': Iv(0, 1, isint=True), 'bad': Iv(0, 1, isint=True), 'b': Iv(0, 1, isint=True), 'found': Iv(0, 1, isint=True),
    'signbit': Iv(0, 1, isint=True), 'streq': Iv(0, 1, isint=True), 'eof': Iv(0, 1, isint=True),
    'bit|': ITOP, 'bit&': ITOP, 'strlen': Iv(0, INF, hi_open=True, isint=True),
}


class Interp:
    MAXDEPTH = 40

    def __init__(self, prog, hooks=None, cap=6, libthrow=False):
        self.prog = prog
        self.kind = prog.kind
        self.hooks = hooks
        self.cap = cap
        self.libthrow = libthrow
        self.quiet = 0
        self.sink = [[]]
        self.ctxs = {}
        self.try_depth = 0
        self.steps = 0
        self.curstmt = None
        self.unmodelled = {}
        self.inlined = {}
        self.sites = set()
        self.loopno = 0
        self.models = MODELS
        self.noinline = set()
        self.effects = None
        self.gotos = {}
        self.summarised = {}
        self.onphi = getattr(hooks, 'on_phi', None)
        self.onelem = getattr(hooks, 'on_elemload', None)
        self.onload = getattr(hooks, 'on_load', None)

    # ---------------------------------------------------------------- helpers
    def hook(self, name, *a):
        if self.hooks is None:
            return None
        h = getattr(self.hooks, name, None)
        if h is None:
            return None
        return h(self, *a)

    def ctx(self, fr, node, fid):
        key = (fr.ctx if fr else 0, node, fid, fr.fn.fid if fr else 0)
        c = self.ctxs.get(key)
        if c is None:
            c = self.ctxs[key] = len(self.ctxs) + 1
        return c

    def where(self, fr, n):
        f = n.get('f') or fr.fn.file
        return f"{f}:{n.get('l', 0)}"

    # ---------------------------------------------------------------- intervals
    def iv(self, st, t, d=0):
        f = st.facts.get(t)
        base = self._iv(st, t, d)
        if f is not None:
            return meet(f, base)
        return base

    def _iv(self, st, t, d):
        op = t.op
        if op == 'k':
            v = t.a[0]
            return pt(v) if isinstance(v, (int, float)) else TOP
        if d > 12:
            return TOP
        if op == 'inst':
            return self.iv(st, t.a[0], d + 1)
        if op == 'lin':
            key, sc = self.norm(t)
            items, c = t.a
            f = st.facts.get(key)
            r = pt(c) if not isinstance(c, float) else pt(c)
            for x, co in items:
                r = iv_add(r, iv_scale(self.iv(st, x, d + 1), co))
            if f is not None:
                r = meet(r, iv_add(iv_scale(f, sc), pt(c)))
            return r
        if op == 'cmp':
            v = self.decide(st, t)
            if v is None:
                return Iv(0, 1, isint=True)
            return pt(v)
        if op == 'not':
            x = self.iv(st, t.a[0], d + 1)
            c = x.const()
            if c is not None:
                return pt(0 if c else 1)
            if not (x.lo <= 0 <= x.hi):
                return pt(0)
            return Iv(0, 1, isint=True)
        if op == 'sym':
            _, _, lo, hi, nan, isint = t.a
            return Iv(-INF if lo is None else lo, INF if hi is None else hi, nan=nan, isint=isint)
        if op == 'fn':
            name = t.a[0]
            args = t.a[1:]
            if name == '*':
                r = self.iv(st, args[0], d + 1)
                for x in args[1:]:
                    r = iv_mul(r, self.iv(st, x, d + 1))
                if len(args) == 2 and args[0] is args[1]:
                    r = meet(r, Iv(0, INF, nan=r.nan, isint=r.isint))
                return r
            if name == '+':
                return iv_add(self.iv(st, args[0], d + 1), self.iv(st, args[1], d + 1))
            if name in ('fabs', 'abs'):
                x = self.iv(st, args[0], d + 1)
                if x.lo >= 0:
                    return x
                if x.hi <= 0:
                    return iv_scale(x, -1)
                return Iv(0, max(-x.lo, x.hi), nan=x.nan, isint=x.isint)
            if name == 'min' or name == 'max':
                a, b = self.iv(st, args[0], d + 1), self.iv(st, args[1], d + 1)
                f = min if name == 'min' else max
                return Iv(f(a.lo, b.lo), f(a.hi, b.hi), nan=a.nan or b.nan, isint=a.isint and b.isint)
            if name == 'trunc':
                x = self.iv(st, args[0], d + 1)
                return Iv(math.trunc(x.lo) if math.isfinite(x.lo) else -INF, math.trunc(x.hi) if math.isfinite(x.hi) else INF, isint=True)
            if name == '/':
                a, b = self.iv(st, args[0], d + 1), self.iv(st, args[1], d + 1)
                if b.lo > 0 or (b.lo == 0 and b.lo_open):
                    if a.lo >= 0:
                        hi = INF
                        if b.lo > 0 and math.isfinite(a.hi):
                            hi = a.hi / b.lo
                        lo = 0
                        if math.isfinite(b.hi):
                            lo = a.lo / b.hi
                        return Iv(lo, hi, lo_open=(a.lo_open or a.lo > 0) and lo == 0, nan=a.nan or b.nan)
                return TOP
            if name in ('idiv', 'exdiv'):
                a, b = self.iv(st, args[0], d + 1), self.iv(st, args[1], d + 1)
                if a.lo >= 0 and b.lo >= 1:
                    hi = a.hi if not math.isfinite(a.hi) else a.hi // (b.lo if math.isfinite(b.lo) else 1)
                    return Iv(0, hi, isint=True)
                return ITOP
            if name == 'imod':
                b = self.iv(st, args[1], d + 1)
                if b.lo >= 1 and math.isfinite(b.hi):
                    a = self.iv(st, args[0], d + 1)
                    return Iv(0 if a.lo >= 0 else -(b.hi - 1), b.hi - 1, isint=True)
                return ITOP
            if name == 'uns':
                return Iv(0, 2**64, isint=True)
            r = FN_RANGE.get(name)
            if r is not None:
                return r
            return TOP
        return TOP

    def norm(self, t):
        """(key, scale): t = scale*key + const"""
        items, c = lin_parts(t)
        if len(items) == 1:
            return items[0][0], items[0][1]
        if not items:
            return t, 1
        f = items[0][1]
        if all(isinstance(v, int) for _, v in items):
            g = 0
            for _, v in items:
                g = math.gcd(g, v)
            f = g if items[0][1] > 0 else -g
            return mk_lin({k: v // f for k, v in items}, 0), f
        return mk_lin({k: v / f for k, v in items}, 0), f

    def decide(self, st, t):
        if t.op != 'cmp':
            if isnum(t):
                return int(bool(t.a[0]))
            if t.op == 'not':
                r = self.decide(st, t.a[0])
                return None if r is None else 1 - r
            c = self.iv(st, t).const()
            return None if c is None else int(bool(c))
        op, a, b, isf = t.a
        f = st.facts.get(t)
        if f is not None and f.const() is not None:
            return int(f.const())
        if op == '==':
            if a is b:
                if isf != 'f':
                    return 1
                return 1 if not self.iv(st, a).nan else None
            if a.op == 's' and b.op == 's':
                return int(a.a[0] == b.a[0])
            if a.op in ('addr', 'lam', 'func') and isnum(b):
                return 0
            if b.op in ('addr', 'lam', 'func') and isnum(a):
                return 0
            if isf == 's':
                x, c = (a, b) if b.op == 's' else (b, a)
                if c.op == 's':
                    known = st.facts.get(mk('streq', x))
                    if known is not None:
                        return int(known == c.a[0])
                return None
        if op in ('<', '<=') and a is b:
            if op == '<':
                return 0
            return 1 if not self.iv(st, a).nan else None
        d = sub(a, b)
        r = self.iv(st, d)
        if isf == 'f':
            # sign of the difference from the operand intervals avoids inf-inf artefacts
            ia, ib = self.iv(st, a), self.iv(st, b)
            nan = ia.nan or ib.nan
            lt = ia.hi < ib.lo or (ia.hi == ib.lo and (ia.hi_open or ib.lo_open))
            le = ia.hi <= ib.lo
            gt = ia.lo > ib.hi or (ia.lo == ib.hi and (ia.lo_open or ib.hi_open))
            ge = ia.lo >= ib.hi
            if ia.empty_num() or ib.empty_num():
                return 0
            if op == '<':
                if lt and not nan:
                    return 1
                if ge:
                    return 0
            elif op == '<=':
                if le and not nan:
                    return 1
                if gt:
                    return 0
            else:
                if lt or gt:
                    return 0
                if not nan and ia.const() is not None and ia.const() == ib.const():
                    return 1
            if nan:
                return None
        nz = r.nan
        if op == '<':
            if (r.hi < 0 or (r.hi == 0 and r.hi_open)) and not nz:
                return 1
            if r.lo >= 0:
                return 0
        elif op == '<=':
            if r.hi <= 0 and not nz:
                return 1
            if r.lo > 0 or (r.lo == 0 and r.lo_open):
                return 0
        elif op == '==':
            if r.lo > 0 or r.hi < 0 or (r.lo == 0 and r.lo_open) or (r.hi == 0 and r.hi_open):
                return 0
            if r.const() == 0 and isf != 'f':
                return 1
        return None

    def refine(self, st, t, bound):
        """meet t's value with interval bound; False if empty"""
        key, sc = self.norm(t)
        _, c = lin_parts(t)
        if not lin_parts(t)[0]:
            v = t.a[0] if isnum(t) else None
            if v is None:
                return True
            return not meet(pt(v), bound).empty()
        b = iv_add(bound, pt(-c if c else 0)) if c else bound
        if sc != 1:
            if isinstance(sc, int) and not (b.isint and sc in (1, -1)):
                lo, hi = (b.lo / sc, b.hi / sc) if sc > 0 else (b.hi / sc, b.lo / sc)
                lo_o, hi_o = (b.lo_open, b.hi_open) if sc > 0 else (b.hi_open, b.lo_open)
                b = Iv(lo, hi, lo_o, hi_o, b.nan, False)
            else:
                b = iv_scale(b, 1 / sc if not isinstance(sc, int) else sc)
        cur = self.iv(st, key)
        r = meet(cur, b)
        if cur.isint:
            r = Iv(r.lo, r.hi, r.lo_open, r.hi_open, r.nan, True)
        if r.empty():
            return False
        if r != cur or key not in st.facts:
            st.facts[key] = r
        self.propagate(st, key, r)
        return True

    def propagate(self, st, key, r):
        """cheap consequences of a refined function term"""
        if key.op == 'fn':
            n = key.a[0]
            if n in ('fabs', 'abs') and math.isfinite(r.hi):
                self.refine(st, key.a[1], Iv(-r.hi, r.hi, r.hi_open, r.hi_open, r.nan))
            elif n in ('fabs', 'abs') and not r.nan:
                self.refine(st, key.a[1], Iv(nan=False))
        elif key.op in ("phi", "sym") and isinstance(r.const(), int):
            # a flag became known: settle the flags whose difference to it is known
            for k in [k for k in st.facts if k.op == 'lin' and len(k.a[0]) == 2]:
                fa = st.facts.get(k)
                if not isinstance(fa, Iv):
                    continue
                (x, cx), (y, cy) = k.a[0]
                if y is key:
                    x, cx, y, cy = y, cy, x, cx
                if x is not key or cy not in (1, -1) or y in st.facts and isinstance(st.facts[y], Iv) and st.facts[y].const() is not None:
                    continue
                b = iv_add(fa, pt(-cx * r.const()))
                b = b if cy == 1 else iv_scale(b, -1)
                cur = self.iv(st, y)
                if not cur.isint or cur.lo < 0 or cur.hi > 1:
                    continue
                m = meet(cur, Iv(b.lo, b.hi, b.lo_open, b.hi_open, True, True))
                if not m.empty() and m != cur:
                    st.facts[y] = m

    def assume(self, st, t, truth):
        """refine st in place; False if infeasible"""
        v = self.iv(st, t)
        c = v.const()
        if c is not None:
            return bool(c) == truth
        op = t.op
        if op == 'not':
            return self.assume(st, t.a[0], not truth)
        if op == 'cmp':
            cop, a, b, isf = t.a
            d = self.decide(st, t)
            if d is not None:
                return bool(d) == truth
            st.facts[t] = pt(1 if truth else 0)
            if cop == '==' and truth:
                self.hook('on_eq', st, a, b)
            if isf == 's':
                if cop == '==' and truth:
                    x, k = (a, b) if b.op == 's' else (b, a)
                    if k.op == 's':
                        st.facts[mk('streq', x)] = k.a[0]
                return True
            # comparison of a boolean term with 0/1
            if cop == '==' and isnum(b) and b.a[0] in (0, 1) and (a.op in BOOLOPS or self.isbool(a)):
                return self.assume(st, a, truth if b.a[0] == 1 else not truth)
            diff = sub(a, b)
            items, _ = lin_parts(diff)
            nan_possible = isf == 'f' and (self.iv(st, a).nan or self.iv(st, b).nan)
            isint = isf != 'f'
            if truth:
                if isf == 'f':
                    for x in (a, b):
                        if lin_parts(x)[0] and self.iv(st, x).nan:
                            if not self.refine(st, x, Iv(nan=False)):
                                return False
                if cop == '<':
                    bd = Iv(hi=0, hi_open=True, nan=False, isint=isint)
                elif cop == '<=':
                    bd = Iv(hi=0, nan=False, isint=isint)
                else:
                    bd = Iv(0, 0, nan=False, isint=isint)
                return self.refine_cmp(st, a, b, diff, bd, cop, isint)
            else:
                if cop == '<':
                    bd = Iv(lo=0, nan=nan_possible, isint=isint)
                elif cop == '<=':
                    bd = Iv(lo=0, lo_open=True, nan=nan_possible, isint=isint)
                else:
                    # a != b : trim end points
                    if len(items) == 1 or (items and isint):
                        key, sc = self.norm(diff)
                        cur = self.iv(st, key)
                        ex = -lin_parts(diff)[1] / sc
                        lo, lo_o, hi, hi_o = cur.lo, cur.lo_open, cur.hi, cur.hi_open
                        if cur.lo == ex:
                            lo_o = True
                        if cur.hi == ex:
                            hi_o = True
                        r = Iv(lo, hi, lo_o, hi_o, cur.nan, cur.isint)
                        if r.empty():
                            return False
                        if r != cur:
                            st.facts[key] = r
                    return True
                if nan_possible and len(items) > 1:
                    return True
                return self.refine_cmp(st, a, b, diff, bd, cop, isint)
        if op == 'fn':
            n = t.a[0]
            st.facts[t] = pt(1 if truth else 0) if self.isbool(t) else st.facts.get(t, TOP)
            if n in ('isfinite', 'isnormal') and truth:
                r = self.refine(st, t.a[1], Iv(lo_open=True, hi_open=True, nan=False))
                return r
            if n == 'isfinite' and not truth:
                x = self.iv(st, t.a[1])
                if not x.nan and math.isfinite(x.lo) and math.isfinite(x.hi):
                    return False
                return True
            if n == 'isnan':
                if truth:
                    return self.iv(st, t.a[1]).nan
                return self.refine(st, t.a[1], Iv(nan=False))
            if n == 'isinf' and not truth:
                return self.refine(st, t.a[1], Iv(lo_open=True, hi_open=True, nan=True))
            if n == 'io' and truth:
                return self.assume(st, t.a[2], True)
            if n == 'good':
                if truth:
                    return self.assume(st, t.a[1], True)
                return True
            if n == 'bad' and truth:
                return self.assume(st, t.a[1], False)
            if self.isbool(t):
                self.hook('on_assume', st, t, truth)
                return True
        # truthiness of a number
        if truth:
            x = self.iv(st, t)
            if self.isbool(t):
                st.facts[t] = pt(1)
                return True
            lo_o = x.lo_open or x.lo == 0
            hi_o = x.hi_open or x.hi == 0
            r = Iv(x.lo, x.hi, lo_o, hi_o, x.nan, x.isint)
            if r.empty():
                return False
            st.facts[mk('cmp', '==', t, K(0), 'i')] = pt(0)
            if r != x:
                st.facts[t] = r
            return True
        z = mk('cmp', '==', t, K(0), 'i')
        f = st.facts.get(z)
        if f is not None and f.const() == 0:
            return False
        st.facts[z] = pt(1)
        return self.refine(st, t, Iv(0, 0, nan=False, isint=self.iv(st, t).isint))

    def refine_cmp(self, st, a, b, diff, bd, cop, isint):
        if not self.refine(st, diff, bd):
            return False
        # transfer a bound of the other operand when it has a known interval (non-relational consequence)
        items, _ = lin_parts(diff)
        if len(items) > 1:
            ia, ib = self.iv(st, a), self.iv(st, b)
            op = cop
            # a - b in bd
            if bd.hi == 0:
                if math.isfinite(ib.hi) and lin_parts(a)[0]:
                    if not self.refine(st, a, Iv(hi=ib.hi, hi_open=ib.hi_open or bd.hi_open, nan=ia.nan, isint=isint)):
                        return False
                if math.isfinite(ia.lo) and lin_parts(b)[0]:
                    if not self.refine(st, b, Iv(lo=ia.lo, lo_open=ia.lo_open or bd.hi_open, nan=ib.nan, isint=isint)):
                        return False
            ia, ib = self.iv(st, a), self.iv(st, b)
            if bd.lo == 0:
                if math.isfinite(ib.lo) and lin_parts(a)[0]:
                    if not self.refine(st, a, Iv(lo=ib.lo, lo_open=ib.lo_open or bd.lo_open, nan=ia.nan, isint=isint)):
                        return False
                if math.isfinite(ia.hi) and lin_parts(b)[0]:
                    if not self.refine(st, b, Iv(hi=ia.hi, hi_open=ia.hi_open or bd.lo_open, nan=ib.nan, isint=isint)):
                        return False
        return True

    def isbool(self, t):
        if t.op in BOOLOPS:
            return True
        if t.op == 'sym':
            return t.a[2] == 0 and t.a[3] == 1 and t.a[5]
        if t.op == 'fn':
            r = FN_RANGE.get(t.a[0])
            return r is not None and r.lo == 0 and r.hi == 1 and r.isint
        return False

    def cmpterm(self, op, a, b, isf):
        if op == '>':
            op, a, b = '<', b, a
        elif op == '>=':
            op, a, b = '<=', b, a
        if op == '!=':
            return self.neg(self.cmpterm('==', a, b, isf))
        if op == '==' and not (isf == 's'):
            # boolean == const
            if isnum(a) and not isnum(b):
                a, b = b, a
            elif not isnum(b) and b.id < a.id:
                a, b = b, a
            if isnum(b) and b.a[0] == 0 and self.isbool(a):
                return self.neg(a)
            if isnum(b) and b.a[0] == 1 and self.isbool(a):
                return a
        if op == '==' and isf == 's' and a.op == 's' and b.op != 's':
            a, b = b, a
        if isnum(a) and isnum(b):
            x, y = a.a[0], b.a[0]
            return K(int({'<': x < y, '<=': x <= y, '==': x == y}[op]))
        return mk('cmp', op, a, b, isf)

    def neg(self, t):
        if t.op == 'not':
            return t.a[0]
        if isnum(t):
            return K(0 if t.a[0] else 1)
        return mk('not', t)

    # ---------------------------------------------------------------- joining
    def sig(self, st):
        return self.hook('signature', st)

    def same_env(self, a, b):
        if a.env.keys() != b.env.keys():
            return False
        for k, d in a.env.items():
            e = b.env[k]
            if d is not e and d != e:
                return False
        return True

    def join_facts_only(self, a, b):
        f = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if not isinstance(v, Iv):
                if w == v:
                    f[k] = v
                continue
            if w is None:
                w = self.iv(b, k)
            h = hull(v, w)
            if not h.is_top() and not (k.op == 'cmp' and h.const() is None):
                f[k] = h
        for k, w in b.facts.items():
            if k in a.facts or not isinstance(w, Iv):
                continue
            h = hull(self.iv(a, k), w)
            if not h.is_top() and not (k.op == 'cmp' and h.const() is None):
                f[k] = h
        a.facts = f
        return a

    def join(self, states, name=None, wid=False):
        """join several states.  name: loop id for stable phi names (None: fresh phis)."""
        states = list(states)
        self.hook('before_join', states)
        if len(states) == 1 and name is None:
            return states[0]
        r = St()
        phis = {}  # phi term -> [terms per state]
        okphi = []
        bases = set()
        for s in states:
            bases |= s.env.keys()
        s0 = states[0]
        for b in bases:
            ds = [s.env.get(b) for s in states]
            d0 = ds[0]
            if all(d is d0 for d in ds):
                r.env[b] = d0
                continue
            ghost = b[0] == '$'
            if b[0] == 'u' and name is not None and any(d is None for d in ds):
                continue  # object behind a pointer first met in the loop
            keys = set()
            for d in ds:
                if d:
                    keys |= d.keys()
            nd = {}
            for k in keys:
                loc = (b,) + k
                vals = []
                for s, d in zip(states, ds):
                    v = d.get(k) if d is not None else None
                    if v is None:
                        if ghost or (d is None and b[0] != 'g') or (k and k[-1] in ('#ep',)):
                            continue  # not (yet) existing in that state
                        if k and isinstance(k[-1], str) and k[-1].startswith('#ref'):
                            continue
                        if '#val' in k and d is not None:
                            h0 = d.get(k[:k.index('#val')] + ('#has',))
                            if h0 is not None and isnum(h0) and h0.a[0] == 0:
                                continue  # disengaged optional
                        if '#elem' in k:
                            z = s.raw((b,) + k[:k.index('#elem')] + ('#size',))
                            if z is not None and isnum(z) and z.a[0] == 0:
                                continue  # no element exists in that state
                        v = s.get(loc)
                    vals.append((s, v))
                v0 = vals[0][1]
                if name is not None and k and k[-1] == '#ep' and len(vals) < len(states) and v0.vol:
                    nd[k] = mk('ep', loc[:-1], mk('phi', name, loc))
                    continue
                if all(v is v0 for _, v in vals) and not (name is not None and not ghost and len(vals) < len(states) and v0.vol and not (k and k[-1] in ('#ep', '#ref'))):
                    nd[k] = v0
                    continue
                if k and k[-1] == '#ep':
                    nd[k] = mk('ep', loc[:-1], mk('phi', name, loc) if name is not None else fresh('ep'))
                    continue
                if k and k[-1] == '#ok':
                    bs = [v.a[2] if v.op == 'fn' and v.a[0] == 'io' else v for _, v in vals]
                    if len(vals) == len(states) and all(x is bs[0] for x in bs) and not isnum(bs[0]):
                        if name is not None:
                            p = mk('phi', name, loc)
                        else:
                            _cntp[0] += 1
                            p = mk('phi', _cntp[0], 0)
                        okphi.append(p)
                        nd[k] = fn('io', p, bs[0])
                        continue
                if ghost:
                    h = self.hook('join_ghost', b[1:], [v for _, v in vals])
                    if h is not None:
                        nd[k] = h
                        continue
                it = None
                if v0.op == 'it' and len(vals) == len(states) and all(v.op == 'it' and v.a[0] == v0.a[0] and isinstance(v.a[1], Term) and (isnum(v.a[1]) or v.a[1].op not in ('fn',)) for _, v in vals):
                    # iterators into one container: the position differs
                    it = v0.a[0]
                    vals = [(s, v.a[1]) for s, v in vals]
                if name is not None:
                    p = mk('phi', name, loc)
                else:
                    _cntp[0] += 1
                    p = mk('phi', _cntp[0], 0)
                    # join of the same list of values at different locations: reuse the symbol
                    key = tuple((id(s), v.id) for s, v in vals)
                    q = phis.get(('k', key))
                    if q is not None:
                        nd[k] = q if it is None else mk('it', it, q)
                        continue
                    phis[('k', key)] = p
                phis[p] = vals
                nd[k] = p if it is None else mk('it', it, p)
                if self.onphi and it is None:
                    self.onphi(p, [v for _, v in vals], False)
            if nd:
                r.env[b] = nd
                r.own.add(b)
        # facts
        pl = [(p, v) for p, v in phis.items() if isinstance(p, Term)]
        f = {p: Iv(0, 1, isint=True) for p in okphi}
        namevol = frozenset(p.id for p, _ in pl)
        for p, vals in pl:
            h = None
            first = None
            for s, v in vals:
                x = self.iv(s, v)
                if s is s0:
                    first = x
                h = x if h is None else hull(h, x)
            if wid and first is not None and h is not None and h != first:
                h = widen(first, h)
            if h is not None and not h.is_top():
                f[p] = h
            if all(v.op == 's' for _, v in vals):
                pass
        cand = set()
        for s in states:
            cand |= s.facts.keys()
        # substitution per state for stable-named phis
        if pl:
            submap = {}
            for p, vals in pl:
                for s, v in vals:
                    submap.setdefault(id(s), {})[p] = v
        for k in cand:
            if k.vol & namevol:
                if k in phis:
                    continue
                # key mentions a (re-defined) phi: evaluate substituted
                h = None
                for s in states:
                    kk = self.subst(k, submap.get(id(s), {}))
                    x = self.iv(s, kk) if kk is not None else TOP
                    h = x if h is None else hull(h, x)
                    if h.is_top():
                        break
                if h is not None and not h.is_top() and not (k.op in ('cmp',) and h.const() is None):
                    f[k] = h
                continue
            vs = [s.facts.get(k) for s in states]
            if any(v is not None and not isinstance(v, Iv) for v in vs):
                if all(v == vs[0] for v in vs):
                    f[k] = vs[0]
                continue
            h = None
            for s, v in zip(states, vs):
                x = v if v is not None else self.iv(s, k)
                h = x if h is None else hull(h, x)
                if h.is_top():
                    break
            if h is not None and not h.is_top() and not (k.op in ('cmp', 'not') and h.const() is None):
                f[k] = h
        # relational candidates lin(phi - other) that hold in each state
        if pl:
            rel = set()
            byatom = {}
            for k in cand:
                if k.op == 'lin' and len(k.a[0]) >= 2 and (name is not None or len(k.a[0]) <= 3):
                    for x, co in k.a[0]:
                        byatom.setdefault(x, []).append((k, co))
            for p, vals in pl if byatom else ():
                for s, v in vals:
                    if v.op == 'k':
                        continue
                    items, c = lin_parts(v)
                    if len(items) == 1 and items[0][1] == 1 and items[0][0] is not p:
                        for k, co in byatom.get(items[0][0], ()):
                            d = dict(k.a[0])
                            del d[items[0][0]]
                            d[p] = d.get(p, 0) + co
                            rel.add(mk_lin(d, 0))
            for k in rel:
                if k in f or k.op != 'lin':
                    continue
                key, _ = self.norm(k)
                if key in f:
                    continue
                h = None
                for s in states:
                    x = self.iv(s, self.subst(key, submap.get(id(s), {})))
                    h = x if h is None else hull(h, x)
                if not h.is_top():
                    f[key] = h
        if len(pl) > 1:
            # differences of small integer settings (options that are set together)
            cs = [(p, vals) for p, vals in pl if len(vals) == len(states) and any(isnum(v) and isinstance(v.a[0], int) for _, v in vals)
                  and all((isnum(v) and isinstance(v.a[0], int)) or v.op == 'phi' for _, v in vals)]
            if len(cs) > 10:
                def rank(pv):
                    h = f.get(pv[0], TOP)
                    return (not (h.lo >= 0 and h.hi <= 1), h.is_top())
                cs = sorted(cs, key=rank)[:12]
            for a in range(len(cs)):
                for b in range(a + 1, len(cs)):
                    h = None
                    for (s, v), (_, w) in zip(cs[a][1], cs[b][1]):
                        x = self.iv(s, sub(v, w))
                        h = x if h is None else hull(h, x)
                        if h.is_top():
                            break
                    if h.is_top():
                        continue
                    d = sub(cs[a][0], cs[b][0])
                    t = iv_add(f.get(cs[a][0], TOP), iv_scale(f.get(cs[b][0], TOP), -1))
                    if h.lo > t.lo or h.hi < t.hi:
                        key, sc = self.norm(d)
                        if sc in (1, -1) and key not in f:
                            f[key] = h if sc == 1 else iv_scale(h, -1)
        if pl and name is None:
            # counters: an integer joined from constants keeps its relation to known differences
            ks = [k for k in cand if k.op == 'lin' and len(k.a[0]) == 2 and all(x.op == 'sym' and x.a[5] for x, _ in k.a[0])][:8]
            for p, vals in pl:
                if not ks or not all(isnum(v) and isinstance(v.a[0], int) for _, v in vals) or len(vals) != len(states):
                    continue
                for k in ks:
                    h = None
                    for s, v in vals:
                        x = self.iv(s, sub(k, v))
                        h = x if h is None else hull(h, x)
                    if not h.is_top():
                        key, sc = self.norm(sub(k, p))
                        if sc == 1:
                            f[key] = h
                        elif sc == -1:
                            f[key] = iv_scale(h, -1)
        r.facts = f
        self.gc(r)
        return r

    def subst(self, t, m):
        if not m or not isinstance(t, Term):
            return t
        if t in m:
            return m[t]
        if not t.vol:
            return t
        if t.op in ('sym', 'phi'):
            return t
        if t.op == 'lin':
            r = K(t.a[1])
            for x, c in t.a[0]:
                r = add(r, scale(self.subst(x, m), c))
            return r
        if t.op == 'cmp':
            return self.cmpterm(t.a[0], self.subst(t.a[1], m), self.subst(t.a[2], m), t.a[3])
        if t.op == 'not':
            return self.neg(self.subst(t.a[0], m))
        if t.op == 'fn':
            if t.a[0] == '*':
                r = K(1)
                for x in t.a[1:]:
                    r = mul(r, self.subst(x, m))
                return r
            return mk('fn', t.a[0], *[self.subst(x, m) for x in t.a[1:]])
        return t

    def gc(self, st):
        """drop facts about symbols nothing refers to any more"""
        live = frozenset()
        acc = set()
        for d in st.env.values():
            for v in d.values():
                if v.vol:
                    acc |= v.vol
        extra = self.hook('live_terms', st)
        if extra:
            for t in extra:
                acc |= t.vol
        st.facts = {k: v for k, v in st.facts.items() if not k.vol or k.vol <= acc}

    def prune(self, states, force=False):
        if len(states) <= 1:
            return states
        self.hook('before_join', states)
        out = []
        for s in states:
            for o in out:
                if self.same_env(o, s):
                    self.join_facts_only(o, s)
                    break
            else:
                out.append(s)
        if len(out) > (self.cap if self.quiet <= 1 else min(self.cap, 2)) or (force and len(out) > 1):
            groups = {}
            for s in out:
                groups.setdefault(self.sig(s), []).append(s)
            out = [self.join(g) for g in groups.values()]
        return out

    # ---------------------------------------------------------------- memory
    def weak(self, loc):
        for x in loc[1:]:
            if x == '#elem':
                return True
        return False

    def store(self, st, loc, val):
        if isinstance(val, L):
            raise AssertionError('store of location')
        if self.weak(loc):
            old = st.raw(loc)
            if old is None:
                src, ep = st.origin(loc)
                if ep.op == 'zero' or self.is_empty_before(st, loc):
                    st.put(loc, val)
                    return
                old = st.get(loc)
            if old is val:
                return
            _cntp[0] += 1
            p = mk('phi', _cntp[0], 1)
            if self.onphi:
                self.onphi(p, [old, val], True)
            h = hull(self.iv(st, old), self.iv(st, val))
            if not h.is_top():
                st.facts[p] = h
            st.put(loc, p)
            return
        st.put(loc, val)

    def is_empty_before(self, st, loc):
        for i in range(len(loc) - 1, 0, -1):
            if loc[i] == '#elem':
                return st.raw(loc[:i] + ('#new',)) is not None
        return False

    def copy_obj(self, st, src, dst, move=False):
        if src == dst:
            return
        if self.onload:
            self.onload(st, src)
        subs = st.subs(src)
        s0, ep = st.origin(src)
        st.kill(dst)
        if self.weak(src) and not self.weak(dst):
            cur = fresh('cp')
            for p, v in subs:
                st.put(dst + p, inst(v, cur))
                if self.onelem:
                    self.onelem(st, src + p, inst(v, cur))
            if ep.op != 'zero':
                ep = mk('inst', ep, cur)
        else:
            for p, v in subs:
                st.put(dst + p, v)
        if st.raw(dst + ('#ep',)) is None:
            st.put(dst + ('#ep',), mk('ep', s0, ep))

    def havoc(self, st, loc):
        st.kill(loc)
        st.put(loc + ('#ep',), mk('ep', loc, fresh('havoc')))

    def newobj(self, st, loc):
        """object with zero/empty initial contents"""
        st.kill(loc)
        st.put(loc + ('#ep',), mk('ep', loc, mk('zero')))

    def load(self, st, v, fr=None, n=None):
        if isinstance(v, L):
            loc = tuple(v)
            if self.onload:
                self.onload(st, loc)
            t = st.raw(loc)
            if t is None:
                t = st.get(loc)
                if t.op == 'init':
                    self.hook('on_init_read', st, fr, n, loc, t)
            elif t.op == 'uninit':
                self.hook('on_uninit_read', st, fr, n, loc)
            if v.cur is not None:
                t = inst(t, v.cur)
                if self.onelem:
                    self.onelem(st, loc, t)
            elif self.onelem and '#elem' in loc:
                self.onelem(st, loc, t)
            return t
        return v

    def tmp(self, fr, i):
        loc = (('t', i, fr.fn.fid, fr.ctx),)
        fr.temps.append(loc[0])
        return loc

    def fresh_of(self, t, label):
        k = self.kind(t)
        s = strip_t(t)
        if s == 'bool':
            return fresh(label, 0, 1, False, True)
        if k == 'int':
            return fresh(label, 0 if s in UNSIGNED else None, None, False, True)
        if k == 'flt':
            return fresh(label, None, None, True, False)
        return fresh(label)

    # ---------------------------------------------------------------- expressions
    def node(self, fr, i):
        return fr.fn.N[i]

    def evs(self, idx, st, fr):
        """evaluate list of nodes left to right -> [(st,[vals])]"""
        res = [(st, [])]
        for i in idx:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(i, s, fr):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def rv(self, i, st, fr):
        """evaluate to a term (scalars) -> [(st, term)]"""
        n = fr.fn.N[i] if i >= 0 else None
        out = []
        for s, v in self.ev(i, st, fr):
            out.append((s, self.load(s, v, fr, n) if isinstance(v, L) else v))
        return out

    def ev(self, i, st, fr):
        if i is None or i < 0:
            return [(st, NOVAL)]
        n = fr.fn.N[i]
        self.steps += 1
        k = n['k']
        if 'cv' in n and k not in ('bin', 'un', 'call', 'mcall', 'opcall', 'sub') or ('cv' in n and k in ('bin', 'un') and not n['op'].endswith('=') and '++' not in n['op'] and '--' not in n['op'] and n['op'] != ',') or ('cv' in n and k == 'bin' and n['op'] in ('==', '!=', '<=', '>=')):
            res = [(st, K(n['cv']))]
        else:
            m = getattr(self, 'e_' + k, None)
            if m is None:
                res = self.e_generic(i, n, st, fr)
            else:
                res = m(i, n, st, fr)
        if n.get('rv') or n.get('ic'):
            res2 = []
            obj = self.kind(n['t']) in OBJ
            for s, v in res:
                if isinstance(v, L) and not obj:
                    v = self.load(s, v, fr, n)
                if n.get('ic') and not isinstance(v, L):
                    v = self.casts(s, v, n)
                res2.append((s, v))
            res = res2
        return res

    def casts(self, st, v, n):
        for kind, t in reversed(n.get('ic', [])):
            v = self.cast1(st, v, kind, t)
        return v

    def cast1(self, st, v, kind, t):
        t = strip_t(t)
        if kind == 'FloatingToIntegral':
            c = self.iv(st, v).const()
            if c is not None:
                return K(int(c)) if math.isfinite(c) else fn('trunc', v)
            if self.iv(st, v).isint:
                return v
            return fn('trunc', v)
        if kind in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.boolify(v)
        if kind == 'PointerToIntegral':
            return fn('ptrint', v)
        if kind == 'FloatingCast' and t == 'float' and not isnum(v):
            return fn('f32', v)
        if kind == 'IntegralCast' and t in UNSIGNED:
            x = self.iv(st, v)
            if isnum(v):
                return v
            if x.lo < 0 and v.op != 'init':
                return fn('uns', v)
        return v

    def boolify(self, v):
        if self.isbool(v) or (isnum(v) and v.a[0] in (0, 1)):
            return v
        if isnum(v):
            return K(1 if v.a[0] else 0)
        return self.neg(mk('cmp', '==', v, K(0), 'i'))

    def e_generic(self, i, n, st, fr):
        if n['k'] in STMTS:
            raise AnalysisBroken('statement in expression position ' + n['k'])
        res = []
        for s, vs in self.evs([c for c in n.get('c', []) if c >= 0], st, fr):
            self.unmodelled[n['k']] = self.unmodelled.get(n['k'], 0) + 1
            if self.kind(n.get('t', '')) in OBJ:
                loc = self.tmp(fr, i)
                self.havoc(s, loc)
                res.append((s, L(loc)))
            else:
                res.append((s, self.fresh_of(n.get('t', ''), n['k'])))
        return res

    def e_int(self, i, n, st, fr):
        return [(st, K(n.get('v', 0)))]
    e_char = e_int

    def e_bool(self, i, n, st, fr):
        return [(st, K(1 if n['v'] else 0))]

    def e_flt(self, i, n, st, fr):
        return [(st, K(n['v']))]

    def e_str(self, i, n, st, fr):
        return [(st, S(n.get('v', '')))]

    def e_null(self, i, n, st, fr):
        return [(st, K(0))]

    def e_nop(self, i, n, st, fr):
        return [(st, NOVAL)]

    def e_this(self, i, n, st, fr):
        t = st.raw((('this', fr.ctx),))
        return [(st, t if t is not None else fresh('this'))]

    def e_sizeof(self, i, n, st, fr):
        return [(st, K(n.get('cv', 1)))]

    def e_defarg(self, i, n, st, fr):
        # the expression belongs to the callee's file but its nodes live here
        return self.ev(n['c'][0], st, fr)

    def e_stdil(self, i, n, st, fr):
        return self.ev(n['c'][0], st, fr)

    def varloc(self, st, fr, d, default=None):
        r = st.raw((('v', d, fr.ctx), '#ref'))
        if r is not None:
            return r
        return None

    def e_ref(self, i, n, st, fr):
        dk = n['dk']
        if dk in ('var', 'param', 'binding'):
            loc = (('v', n['d'], fr.ctx),)
            r = st.raw(loc + ('#ref',))
            if r is not None:
                return [(st, unaddr(r) if r.op == 'addr' else L((('u', r.id),)))]
            if loc[0] not in st.env and dk != 'binding':
                # captured constant or variable of an enclosing function that was not captured
                f = fr.parent
                while f is not None:
                    l2 = (('v', n['d'], f.ctx),)
                    if l2[0] in st.env:
                        r = st.raw(l2 + ('#ref',))
                        if r is not None and r.op == 'addr':
                            return [(st, unaddr(r))]
                        return [(st, L(l2))]
                    f = f.parent
            return [(st, L(loc))]
        if dk in ('global', 'slocal'):
            q = n.get('q') or n['n']
            if dk == 'slocal':
                q = f"{q}@{n['d']}"
            r = st.raw((('g', q), '#ref'))
            return [(st, L(r.a[0]) if r is not None and r.op == 'addr' else L((('g', q),)))]
        if dk == 'enumc':
            v = self.prog.enums.get(n.get('q'))
            return [(st, K(v) if v is not None else mk('enum', n.get('q') or n['n']))]
        if dk == 'func':
            return [(st, mk('func', n['fid'], n.get('fn') or n['n']))]
        return [(st, fresh(n['n']))]

    def e_mem(self, i, n, st, fr):
        if n.get('dk') == 'global':
            return [(st, L((('g', n.get('q') or n['m']),)))]
        if n.get('dk') == 'func':
            return [(st, mk('func', n['fid'], n.get('fn')))]
        out = []
        for s, v in self.ev(n['c'][0], st, fr):
            loc = self.deref(s, v, fr, n) if n.get('arrow') else (tuple(v) if isinstance(v, L) else (('u', v.id),))
            cur = v.cur if isinstance(v, L) and not n.get('arrow') else None
            loc = loc + (n['m'],)
            r = s.raw(loc + ('#ref',))
            if r is not None and r.op == 'addr':
                loc = r.a[0]
                if len(r.a) > 1:
                    cur = r.a[1]
            out.append((s, LC(loc, cur)))
        return out

    def deref(self, st, v, fr=None, n=None):
        """location designated by pointer-like value"""
        if isinstance(v, L):
            v = self.load(st, v, fr, n)
        if v.op == 'addr':
            return v.a[0]
        if v.op == 'it':
            return v.a[0]
        return (('u', v.id),)

    def e_un(self, i, n, st, fr):
        op = n['op']
        c = n['c'][0]
        out = []
        if op in ('++', '--', 'post++', 'post--'):
            for s, v in self.ev(c, st, fr):
                old = self.load(s, v, fr, n)
                new = self.ptradd(old, K(1)) if '++' in op else self.ptradd(old, K(-1))
                if isinstance(v, L):
                    self.store(s, tuple(v), new)
                    self.hook('on_inc', s, fr, n, tuple(v))
                if op.startswith('post'):
                    out.append((s, old))
                else:
                    out.append((s, v if isinstance(v, L) else new))
            return out
        if op == '&':
            for s, v in self.ev(c, st, fr):
                out.append((s, mk('addr', tuple(v)) if isinstance(v, L) else (v if v.op == 'func' else fresh('addr'))))
            return out
        if op == '*':
            for s, v in self.ev(c, st, fr):
                v = self.load(s, v, fr, n) if isinstance(v, L) else v
                if v.op == 'func' or v.op == 'lam':
                    out.append((s, v))
                else:
                    out.append((s, L(self.deref(s, v, fr, n))))
            return out
        for s, v in self.rv(c, st, fr):
            if op == '-':
                out.append((s, scale(v, -1)))
            elif op == '+':
                out.append((s, v))
            elif op == '!':
                out.append((s, self.neg(self.boolify(v))))
            else:
                out.append((s, fn('un' + op, v)))
        return out

    def ptradd(self, v, d):
        if v.op in ('addr', 'it', 's', 'func'):
            if v.op == 'it':
                return mk('it', v.a[0], add(v.a[1], d) if isinstance(v.a[1], Term) else fresh('itpos'))
            if v.op == 'addr':
                return v
            return fn('+', v, d)
        return add(v, d)

    def arith(self, st, op, a, b, t, nodes=None):
        k = self.kind(t)
        isint = k == 'int'
        if op == '+':
            if a.op in ('addr', 'it', 's'):
                return self.ptradd(a, b)
            if b.op in ('addr', 'it'):
                return self.ptradd(b, a)
            return add(a, b)
        if op == '-':
            if a.op in ('addr', 'it', 's') and b.op not in ('addr', 'it', 's'):
                return self.ptradd(a, scale(b, -1))
            if a.op in ('addr', 'it', 's'):
                return fresh('ptrdiff', None, None, False, True)
            return sub(a, b)
        if op == '*':
            r = mul(a, b)
            return self.simp_muldiv(st, r)
        if op == '/':
            if isnum(a) and isnum(b) and b.a[0] != 0:
                x, y = a.a[0], b.a[0]
                if isint and isinstance(x, int) and isinstance(y, int):
                    q = abs(x) // abs(y)
                    return K(q if (x >= 0) == (y >= 0) else -q)
                return K(x / y)
            if isint:
                return fn('idiv', a, b)
            if isnum(b) and b.a[0] != 0 and math.isfinite(b.a[0]):
                return scale(a, 1.0 / b.a[0])
            return fn('/', a, b)
        if op == '%':
            if isnum(a) and isnum(b) and b.a[0] != 0:
                return K(int(math.fmod(a.a[0], b.a[0])))
            return fn('imod', a, b)
        return fn('bit' + op, a, b)

    def simp_muldiv(self, st, r):
        """k * idiv(x, k') with x % k' == 0 known and k' = c*k  ->  x / c (exact)"""
        items, c0 = lin_parts(r)
        if len(items) != 1 or c0 != 0:
            return r
        atom, coef = items[0]
        fs = list(atom.a[1:]) if (atom.op == 'fn' and atom.a[0] == '*') else [atom]
        for j, x in enumerate(fs):
            if x.op == 'fn' and x.a[0] == 'idiv':
                num, den = x.a[1], x.a[2]
                m = st.facts.get(fn('imod', num, den))
                if m is None or m.const() != 0:
                    continue
                rest = fs[:j] + fs[j + 1:]
                prod = K(coef)
                for y in rest:
                    prod = mul(prod, y)
                # den == c * prod ?
                di, dc = lin_parts(den)
                pi, pc = lin_parts(prod)
                if not di and not pi and pc and dc % pc == 0:
                    return fn('exdiv', num, K(dc // pc)) if dc != pc else num
                if len(di) == len(pi) and di and dc == 0 and pc == 0:
                    r0 = di[0][1] / pi[0][1]
                    if all(u[0] is w[0] and u[1] == w[1] * r0 for u, w in zip(di, pi)) and r0 == int(r0):
                        return num if r0 == 1 else fn('exdiv', num, K(int(r0)))
                if (di == pi and len(di) > 1 and dc and pc and dc / pc == di[0][1] / pi[0][1]):
                    return num
                # lin with constant: compare proportionally
                if len(di) == len(pi) and di:
                    r0 = di[0][1] / pi[0][1]
                    if r0 == int(r0) and all(u[0] is w[0] and u[1] == w[1] * r0 for u, w in zip(di, pi)) and dc == pc * r0:
                        return num if r0 == 1 else fn('exdiv', num, K(int(r0)))
        return r

    def isf(self, fr, i, j):
        for x in (i, j):
            n = fr.fn.N[x]
            t = n['ic'][0][1] if n.get('ic') else n.get('t', '')
            k = self.kind(t)
            if k == 'flt':
                return 'f'
            if k == 'str':
                return 's'
        return 'i'

    def e_bin(self, i, n, st, fr):
        op = n['op']
        a, b = n['c']
        if op in ('&&', '||'):
            t, f = self.cond(i, st, fr)
            return [(s, K(1)) for s in t] + [(s, K(0)) for s in f]
        if op == ',':
            out = []
            for s, _ in self.ev(a, st, fr):
                out += self.ev(b, s, fr)
            return out
        if op == '=':
            out = []
            for s, v in self.ev(b, st, fr):
                rt = self.load(s, v, fr, n) if not (isinstance(v, L) and self.kind(n['t']) in OBJ) else v
                for s2, l in self.ev(a, s, fr):
                    if isinstance(l, L):
                        if isinstance(rt, L):
                            self.copy_obj(s2, tuple(rt), tuple(l))
                        else:
                            self.store(s2, tuple(l), rt)
                            self.hook('on_assign', s2, fr, n, tuple(l), rt)
                    out.append((s2, l))
            return out
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            out = []
            for s, rt in self.rv(b, st, fr):
                for s2, l in self.ev(a, s, fr):
                    old = self.load(s2, l, fr, n)
                    new = self.arith(s2, op[:-1], old, rt, fr.fn.N[a]['t'])
                    if isinstance(l, L):
                        self.store(s2, tuple(l), new)
                        self.hook('on_assign', s2, fr, n, tuple(l), new)
                    out.append((s2, l))
            return out
        out = []
        for s, x in self.rv(a, st, fr):
            for s2, y in self.rv(b, s, fr):
                if op in ('==', '!=', '<', '<=', '>', '>='):
                    isf = self.isf(fr, a, b)
                    x1, y1 = x, y
                    if 'uns' in (x.a[0] if x.op == 'fn' else '', y.a[0] if y.op == 'fn' else ''):
                        x1, y1 = self.unsfix(s2, x), self.unsfix(s2, y)
                    out.append((s2, self.cmpterm(op, x1, y1, isf)))
                else:
                    out.append((s2, self.arith(s2, op, x, y, n['t'])))
        return out

    def unsfix(self, st, x):
        """an unsigned view of a value now known to be non-negative is the value itself"""
        if x.op == 'fn' and x.a[0] == 'uns' and self.iv(st, x.a[1]).lo >= 0:
            return x.a[1]
        return x

    def e_rwbin(self, i, n, st, fr):
        op = n['op']
        a, b = n['c']
        out = []
        for s, x in self.ev(a, st, fr):
            for s2, y in self.ev(b, s, fr):
                f = self.prog.fns.get(n.get('ifid')) if op == '!=' else None
                if f is not None and isinstance(x, L) and f.kind in ('method', 'fn'):
                    # a != b stands for !(a == b) with the operator of the project
                    rs = self.inline(f, s2, fr, i, n, [y], this=tuple(x)) if f.kind == 'method' else self.inline(f, s2, fr, i, n, [x, y])
                    for s3, r in rs:
                        out.append((s3, self.neg(r) if not isinstance(r, L) and r is not None else fresh('objcmp', 0, 1, False, True)))
                    continue
                out.append((s2, self.objcmp(s2, op, x, y, fr, n, a, b)))
        return out

    def objcmp(self, st, op, x, y, fr, n, a=None, b=None):
        if isinstance(x, L) and self.kind(fr.fn.N[a]['t'] if a is not None else '') not in OBJ:
            x = self.load(st, x, fr, n)
        if isinstance(y, L) and self.kind(fr.fn.N[b]['t'] if b is not None else '') not in OBJ:
            y = self.load(st, y, fr, n)
        if isinstance(x, L) or isinstance(y, L):
            return fresh('objcmp', 0, 1, False, True)
        k = self.isf(fr, a, b) if a is not None else 'i'
        if 'it' in (x.op, y.op):
            return self.itcmp(st, op, x, y)
        if x.op in ('s', 'cat') or y.op in ('s', 'cat'):
            k = 's'
        return self.cmpterm(op, x, y, k)

    def itcmp(self, st, op, x, y):
        if op == '!=':
            return self.neg(self.itcmp(st, '==', x, y))
        if op == '==' and x.op == 'it' and y.op == 'it':
            for p, q in ((x, y), (y, x)):
                if q.a[1] == 'end' and isinstance(p.a[1], Term) and p.a[1].op == 'fn' and p.a[1].a[0] == 'found':
                    return self.neg(p.a[1])
        return fresh('itcmp', 0, 1, False, True)

    def e_cond(self, i, n, st, fr):
        c, a, b = n['c']
        t, f = self.cond(c, st, fr)
        out = []
        for s in t:
            out += self.ev(a, s, fr)
        for s in f:
            out += self.ev(b, s, fr)
        return self.mergevals(out, fr, i, n)

    def mergevals(self, out, fr, i, n):
        """limit the number of (state,value) pairs"""
        if len(out) <= 4:
            return out
        if any(isinstance(v, L) for _, v in out):
            return out
        loc = (('x', i, fr.fn.fid, fr.ctx),)
        sts = []
        for s, v in out:
            s.put(loc, v)
            sts.append(s)
        sts = self.prune(sts, force=True)
        r = []
        for s in sts:
            v = s.get(loc)
            s.kill(loc)
            r.append((s, v))
        return r

    def e_sub(self, i, n, st, fr):
        a, b = n['c']
        out = []
        for s, x in self.ev(a, st, fr):
            for s2, idx in self.rv(b, s, fr):
                base = self.load(s2, x, fr, n) if isinstance(x, L) and self.kind(fr.fn.N[a]['t']) != 'arr' else x
                if not isinstance(base, L) and argv_off(base) is not None:
                    idx = add(argv_off(base), idx)
                    self.hook('on_argv', s2, fr, n, idx)
                    out.append((s2, mk('argvk', idx)))
                    continue
                if isinstance(base, L):
                    loc = tuple(base)
                elif base.op == 'addr':
                    loc = base.a[0]
                elif base.op in ('init', 'sym', 'fn', 'phi', 'cat', 's'):
                    if self.kind(n['t']) == 'int':
                        out.append((s2, fn('ch', base, idx)))
                        continue
                    loc = (('u', base.id),)
                else:
                    loc = (('u', base.id),)
                if isinstance(base, L):
                    self.hook('on_index', s2, fr, n, loc, idx)
                    if isnum(idx) and isinstance(idx.a[0], int):
                        out.append((s2, L(loc + (('#i', idx.a[0]),))))
                        continue
                out.append((s2, LC(loc + ('#elem',), idx)))
        return out

    def e_cast(self, i, n, st, fr):
        c = n['c'][0]
        ck = n.get('ck')
        out = []
        if ck == 'ToVoid':
            return self.ev(c, st, fr)
        for s, v in self.ev(c, st, fr):
            if isinstance(v, L) and self.kind(n['t']) not in OBJ and ck not in ('NoOp', 'ConstructorConversion', 'DerivedToBase', 'LValueBitCast', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
                v = self.load(s, v, fr, n)
            if not isinstance(v, L) and ck in ('FloatingToIntegral', 'IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'IntegralCast', 'PointerToIntegral'):
                v = self.cast1(s, v, ck, n['t'])
            out.append((s, v))
        return out

    def e_ilist(self, i, n, st, fr):
        k = self.kind(n['t'])
        if k not in OBJ and k != 'other':
            cs = n.get('c', [])
            if len(cs) == 1:
                return self.ev(cs[0], st, fr)
            if not cs:
                return [(st, K(0) if k != 'str' else S(''))]
        loc = self.tmp(fr, i)
        return [(s, L(loc)) for s in self.init_list(n, st, fr, loc)]

    def init_list(self, n, st, fr, loc):
        """aggregate / array initialisation into loc"""
        t = strip_t(n['t'])
        k = self.kind(n['t'])
        cls = self.prog.classes.get(t)
        self.newobj(st, loc)
        states = [st]
        if cls is not None:
            for f, c in zip(cls['fields'], n.get('c', [])):
                nxt = []
                for s in states:
                    nxt += self.ev_into(c, s, fr, loc + (f['n'],), f['t'])
                states = nxt
            for f in cls['fields'][len(n.get('c', [])):]:
                nxt = []
                for s in states:
                    nxt += self.default_field(s, fr, loc + (f['n'],), f, cls)
                states = nxt
            return states
        if k == 'pair':
            for nm, c in zip(('first', 'second'), n.get('c', [])):
                nxt = []
                for s in states:
                    nxt += self.ev_into(c, s, fr, loc + (nm,), fr.fn.N[c]['t'])
                states = nxt
            return states
        st.put(loc + ('#size',), K(len(n.get('c', []))))
        st.put(loc + ('#new',), K(1))
        if t.startswith('gsl_function'):
            pass
        for j, c in enumerate(n.get('c', [])):
            nxt = []
            for s in states:
                if k == 'other' or c < 0:
                    for s2, v in self.ev(c, s, fr):
                        if not isinstance(v, L):
                            s2.put(loc + (('#i', j),), v)
                        nxt.append(s2)
                    continue
                for s2, v in self.ev(c, s, fr):
                    self.put_elem(s2, loc, v, fr, fr.fn.N[c])
                    nxt.append(s2)
            states = nxt
        return states

    def put_elem(self, st, loc, v, fr, n):
        el = loc + ('#elem',)
        if isinstance(v, L):
            if self.kind(n.get('t', '')) in OBJ:
                # weak update of a summary object: field-wise
                first = not st.subs(el) and st.raw(loc + ('#new',)) is not None
                if first:
                    self.copy_obj(st, tuple(v), el)
                else:
                    for p, val in st.subs(tuple(v)):
                        if p and p[-1] in ('#ep',):
                            continue
                        self.store(st, el + p, val)
                return
            v = self.load(st, v, fr, n)
        self.store(st, el, v)

    def e_lambda(self, i, n, st, fr):
        caps = []
        res = st
        out = [(st, [])]
        for c in n.get('caps', []):
            nxt = []
            for s, cs in out:
                if c.get('this'):
                    t = s.raw((('this', fr.ctx),))
                    nxt.append((s, cs + [('this', t if t is not None else fresh('this'))]))
                elif c.get('ref'):
                    v = self.e_ref(i, {'dk': 'var', 'd': c['d'], 'n': c['n']}, s, fr)[0][1]
                    nxt.append((s, cs + [(c['d'], mk('addr', tuple(v)))]))
                elif 'init' in c:
                    for s2, v in self.ev(c['init'], s, fr):
                        nn = fr.fn.N[c['init']]
                        loc = (('cap', i, c['d'], fr.fn.fid, fr.ctx),)
                        s2.kill(loc)
                        if isinstance(v, L) and self.kind(nn['t']) in OBJ:
                            self.copy_obj(s2, tuple(v), loc)
                        else:
                            s2.put(loc, self.load(s2, v, fr, nn))
                        nxt.append((s2, cs + [(c['d'], mk('addr', loc))]))
                else:
                    nxt.append((s, cs))
            out = nxt
        return [(s, mk('lam', n['fid'], tuple(cs))) for s, cs in out]

    def e_new(self, i, n, st, fr):
        out = []
        for s, vs in self.evs([c for c in n.get('c', []) if c >= 0], st, fr):
            loc = (('h', i, fr.fn.fid, fr.ctx),)
            self.havoc(s, loc)
            if vs and isinstance(vs[-1], L):
                self.copy_obj(s, tuple(vs[-1]), loc)
            out.append((s, mk('addr', loc)))
        return out

    def e_delete(self, i, n, st, fr):
        return [(s, NOVAL) for s, v in self.ev(n['c'][0], st, fr)]

    def e_throw(self, i, n, st, fr):
        if not n['c']:
            states = [st]
            info = st.ghost('exc')
            typ = info.a[0] if info is not None else '?'
        else:
            states = [s for s, v in self.ev(n['c'][0], st, fr)]
            typ = strip_t(fr.fn.N[n['c'][0]]['t'])
        for s in states:
            self.throw(s, typ, fr, n)
        return []

    def throw(self, st, typ, fr, n):
        self.hook('on_throw', st, typ, fr, n)
        self.sink[-1].append((st, typ))

    def e_depref(self, i, n, st, fr):
        return [(st, fresh('dep'))]

    # ---------------------------------------------------------------- conditions
    def cond(self, i, st, fr):
        """-> (true states, false states)"""
        if i is None or i < 0:
            return [st], []
        n = fr.fn.N[i]
        if n['k'] == 'bin' and n['op'] in ('&&', '||') and not n.get('ic'):
            a, b = n['c']
            t, f = self.cond(a, st, fr)
            if n['op'] == '&&':
                T, F = [], list(f)
                for s in t:
                    t2, f2 = self.cond(b, s, fr)
                    T += t2
                    F += f2
            else:
                T, F = list(t), []
                for s in f:
                    t2, f2 = self.cond(b, s, fr)
                    T += t2
                    F += f2
            return self.prune(T), self.prune(F)
        if n['k'] == 'un' and n['op'] == '!':
            t, f = self.cond(n['c'][0], st, fr)
            return f, t
        T, F = [], []
        for s, v in self.rv(i, st, fr):
            v = self.boolify(v)
            c = self.iv(s, v).const()
            if c is not None:
                (T if c else F).append(s)
                # still record fact-free
                continue
            s2 = s.copy()
            if self.assume(s, v, True):
                self.hook('on_branch', s, fr, n, v, True)
                T.append(s)
            if self.assume(s2, v, False):
                self.hook('on_branch', s2, fr, n, v, False)
                F.append(s2)
        return T, F

    # ---------------------------------------------------------------- construction
    def ev_into(self, i, st, fr, loc, t):
        """evaluate initialiser node i into location loc of type t -> [states]"""
        n = fr.fn.N[i]
        k = self.kind(t)
        if '&' in t:  # reference
            out = []
            for s, v in self.ev(i, st, fr):
                if isinstance(v, L):
                    s.put(loc + ('#ref',), mkaddr(v))
                else:
                    tl = self.tmp(fr, i)
                    s.put(tl, v)
                    fr.temps and fr.temps.pop()
                    s.put(loc + ('#ref',), mk('addr', tl))
                out.append(s)
            return out
        if k in OBJ:
            while n['k'] in ('cast', 'defarg', 'stdil') and n.get('c'):
                i = n['c'][0]
                n = fr.fn.N[i]
            if n['k'] == 'ctor':
                return self.construct(i, n, st, fr, loc)
            if n['k'] == 'ilist':
                return self.init_list(n, st, fr, loc)
            out = []
            for s, v in self.ev(i, st, fr):
                if isinstance(v, L):
                    self.copy_obj(s, tuple(v), loc)
                else:
                    s.kill(loc)
                    s.put(loc, v)
                    if v.op == 's' and k == 'arr':
                        pass
                out.append(s)
            return out
        out = []
        for s, v in self.rv(i, st, fr):
            s.kill(loc)
            s.put(loc, v)
            out.append(s)
        return out

    def e_ctor(self, i, n, st, fr):
        k = self.kind(n['t'])
        if k in OBJ:
            loc = self.tmp(fr, i)
            return [(s, L(loc)) for s in self.construct(i, n, st, fr, loc)]
        # scalar-like class
        out = []
        for s, vs in self.evs(n.get('c', []), st, fr):
            out += self.scalar_ctor(i, n, s, fr, vs, k)
        return out

    def scalar_ctor(self, i, n, st, fr, vs, k):
        self.maybe_libthrow(st, fr, n)
        cls = n.get('cls', '')
        lv = [self.load(st, v, fr, n) for v in vs]
        if k == 'str':
            if not lv:
                return [(st, S(''))]
            a = lv[0]
            na = [x for x in n.get('c', []) if fr.fn.N[x]['k'] != 'defarg']
            if len(na) == 1:
                return [(st, a)]
            return [(st, fn('string', *lv[:len(na)]))]
        if k == 'uptr':
            h = self.hook('on_uptr', st, fr, n, lv)
            return [(st, lv[0] if lv else K(0))]
        if cls == 'std::complex':
            if not lv:
                return [(st, K(0))]
            if len(lv) == 1:
                return [(st, lv[0])]
            if isnum(lv[1]) and lv[1].a[0] == 0:
                return [(st, lv[0])]
            return [(st, fn('complex', *lv))]
        if n.get('copy') or n.get('move'):
            return [(st, lv[0])]
        if cls.startswith('__gnu_cxx') or 'iterator' in cls or cls == 'std::function':
            return [(st, lv[0] if lv else fresh(cls))]
        m = self.models.get(cls + '::' + n['n'])
        if m:
            r = m(self, st, fr, i, n, vs)
            return r if isinstance(r, list) else [(st, r)]
        if len(lv) == 1 and lv[0].op in ('lam', 'func'):
            return [(st, lv[0])]
        return [(st, mk('obj', strip_t(n['t']), *[x for x in lv]))]

    def construct(self, i, n, st, fr, loc):
        """run constructor node into loc -> [states]"""
        k = self.kind(n['t'])
        t = strip_t(n['t'])
        out = []
        f = self.prog.fns.get(n.get('fid'))
        if k == 'class':
            cls = self.prog.classes[t]
            if f is not None and f.kind == 'ctor':
                for s, vs in self.evs(n.get('c', []), st, fr):
                    s.kill(loc)
                    s.put(loc + ('#type',), mk('type', t))
                    for s2, _ in self.inline(f, s, fr, i, n, vs, this=loc):
                        out.append(s2)
                return out
            if n.get('copy') or n.get('move') or (len(n.get('c', [])) == 1 and self.kind(fr.fn.N[n['c'][0]]['t']) == 'class'):
                for s, v in self.ev(n['c'][0], st, fr):
                    if isinstance(v, L):
                        self.copy_obj(s, tuple(v), loc)
                    else:
                        self.havoc(s, loc)
                    out.append(s)
                return out
            # implicit/defaulted default constructor (or inherited): default-initialise fields
            for s, vs in self.evs(n.get('c', []), st, fr):
                out += self.default_init(s, fr, loc, cls)
            return out
        m = self.models.get('ctor:' + k)
        if m is None:
            return self.ctor_unknown(n, st, fr, loc)
        for s, vs in self.evs(n.get('c', []), st, fr):
            self.maybe_libthrow(s, fr, n)
            out += m(self, s, fr, i, n, vs, loc)
        return out

    def ctor_unknown(self, n, st, fr, loc):
        out = []
        for s, vs in self.evs(n.get('c', []), st, fr):
            self.havoc(s, loc)
            out.append(s)
        return out

    def default_init(self, st, fr, loc, cls):
        st.kill(loc)
        st.put(loc + ('#type',), mk('type', cls['t']))
        states = [st]
        for b in cls.get('bases', []):
            bc = self.prog.classes.get(strip_t(b['t']))
            if bc is not None:
                nxt = []
                for s in states:
                    # look for a user-provided default constructor of the base
                    nxt += self.default_obj(s, fr, loc, bc['t'], keep=True)
                states = nxt
            elif self.kind(b['t']) in OBJ:
                for s in states:
                    self.newobj(s, loc)
                    s.put(loc + ('#size',), K(0))
                    s.put(loc + ('#new',), K(1))
        for f in cls['fields']:
            nxt = []
            for s in states:
                nxt += self.default_field(s, fr, loc + (f['n'],), f, cls)
            states = nxt
        return states

    def default_field(self, st, fr, loc, f, cls):
        if 'initn' in f:
            pf = PseudoFn(cls)
            fr2 = Frame(pf, self.ctx(fr, -f['id'], 0), fr.depth + 1 if fr else 1, fr)
            st.put((('this', fr2.ctx),), mk('addr', loc[:-1]))
            r = self.ev_into(f['initn'], st, fr2, loc, f['t'])
            for s in r:
                s.kill((('this', fr2.ctx),))
            return r
        return self.default_obj(st, fr, loc, f['t'])

    def default_obj(self, st, fr, loc, t, keep=False):
        k = self.kind(t)
        if k == 'class':
            cls = self.prog.classes[strip_t(t)]
            for m in cls['methods']:
                if m['kind'] == 'ctor' and not m['deleted']:
                    f = self.prog.fns.get(m['fid'])
                    if f is not None and (not f.params or all('def' in p for p in f.params)):
                        if not keep:
                            st.kill(loc)
                        vs = []
                        return [s for s, _ in self.inline(f, st, fr, -2, {'c': [], 'l': f.line}, vs, this=loc)]
            return self.default_init(st, fr, loc, cls)
        st.kill(loc)
        if k in OBJ and k != 'arr':
            return self.models['ctor:' + k](self, st, fr, -1, {'t': t, 'c': [], 'l': 0}, [], loc)
        if k == 'str':
            st.put(loc, S(''))
        elif k == 'uptr':
            st.put(loc, K(0))
        elif k in ('int', 'flt', 'ptr'):
            st.put(loc, mk('uninit', loc))
        elif k == 'arr':
            st.put(loc + ('#ep',), mk('ep', loc, fresh('arr')))
            m = re.match(r'(?:std::array<)?([a-z ]+)(?: *\[\d+\]|, *\d+[a-z]*>)$', strip_t(t))
            if m and self.kind(m.group(1)) in ('int', 'flt'):
                st.put(loc + ('#elem',), mk('uninit', loc + ('#elem',)))
        elif strip_t(t).startswith('std::complex'):
            st.put(loc, K(0))
        else:
            st.put(loc, fresh('dflt'))
        return [st]

    # ---------------------------------------------------------------- calls
    def maybe_libthrow(self, st, fr, n):
        if self.libthrow and n.get('thr') and (self.try_depth > 0 or self.libthrow == 'all'):
            if n['n'] in NOTHROW:
                return
            s = st.copy()
            self.sink[-1].append((s, 'lib'))
            if len(self.sink[-1]) > 40:
                self.compact_sink()

    def compact_sink(self):
        by = {}
        for s, t in self.sink[-1]:
            by.setdefault((t, self.sig(s)), []).append(s)
        self.sink[-1][:] = [(self.prune(g, force=True)[0], k[0]) for k, g in by.items()]

    def e_call(self, i, n, st, fr):
        if 'ce' in n:
            out = []
            for s, fv in self.rv(n['ce'], st, fr):
                for s2, vs in self.evs(n['c'], s, fr):
                    out += self.call_value(fv, s2, fr, i, n, vs)
            return out
        out = []
        for s, vs in self.evs(n['c'], st, fr):
            out += self.call(i, n, s, fr, vs, None)
        return self.mergevals(out, fr, i, n) if len(out) > 8 else out

    def e_mcall(self, i, n, st, fr):
        out = []
        for s, vs in self.evs(n['c'], st, fr):
            out += self.call(i, n, s, fr, vs[1:], vs[0])
        return out

    def e_opcall(self, i, n, st, fr):
        if n['op'] == '()' :
            out = []
            c = n['c']
            for s, vs in self.evs(c, st, fr):
                f = self.prog.fns.get(n.get('fid'))
                o = vs[0]
                ov = o
                if isinstance(o, L) and self.kind(fr.fn.N[c[0]]['t']) not in OBJ:
                    ov = self.load(s, o, fr, n)
                if not isinstance(ov, L) and ov.op in ('lam', 'func'):
                    out += self.call_value(ov, s, fr, i, n, vs[1:], f)
                elif f is not None and n.get('cls') and f.kind == 'method':
                    out += self.call(i, n, s, fr, vs[1:], o)
                else:
                    out += self.call(i, n, s, fr, vs[1:], o)
            return out
        f = self.prog.fns.get(n.get('fid'))
        out = []
        for s, vs in self.evs(n['c'], st, fr):
            if n.get('cls') and not (f is not None and f.kind == 'fn'):
                out += self.call(i, n, s, fr, vs[1:], vs[0])
            else:
                out += self.call(i, n, s, fr, vs, None)
        return out

    def call_value(self, fv, st, fr, i, n, vs, f=None):
        if fv.op == 'lam':
            fid, caps = fv.a
            # choose the operator() instance
            g = f if f is not None and f.kind == 'lambda' else self.prog.fns.get(fid)
            if g is None:
                return self.unknown(i, n, st, fr, vs, None)
            return self.inline(g, st, fr, i, n, vs, caps=caps)
        if fv.op == 'func':
            g = self.prog.fns.get(fv.a[0])
            if g is not None:
                return self.inline(g, st, fr, i, n, vs)
        return self.unknown(i, n, st, fr, vs, None)

    def call(self, i, n, st, fr, vs, obj):
        """-> [(st,val)]"""
        name = (n['cls'] + '::' + n['n']) if n.get('cls') else strip_targs(n.get('fn', n.get('n', '')))
        r = self.hook('on_call', st, fr, i, n, name, vs, obj)
        if r is not None:
            return r
        f = self.prog.fns.get(n.get('fid'))
        if f is not None and f.fid not in self.noinline and f.pk not in self.noinline and fr.depth < self.MAXDEPTH and not self.recursive(fr, f):
            this = None
            if obj is not None and f.kind in ('method', 'dtor', 'ctor'):
                this = self.deref(st, obj, fr, n) if (n.get('arrow') or not isinstance(obj, L)) else tuple(obj)
                if f.d.get('virt'):
                    this_t = st.raw(this + ('#type',))
                    g = self.override(f, this_t)
                    f = g
            return self.inline(f, st, fr, i, n, vs, this=this)
        if n.get('pk') and f is None and obj is not None and n.get('op') == '=':
            # defaulted assignment of a project class
            if vs and isinstance(vs[0], L) and isinstance(obj, L):
                self.copy_obj(st, tuple(vs[0]), tuple(obj))
                return [(st, obj)]
        if n.get('noret'):
            return self.noreturn(i, n, st, fr, name, vs)
        m = self.models.get(name)
        if m is None:
            m = self.models.get('*::' + n.get('n', ''))
            if m is not None and not n.get('cls'):
                m = self.models.get(n.get('n', ''))
        self.maybe_libthrow(st, fr, n)
        if m is not None:
            args = vs if obj is None else [obj] + vs
            r = m(self, st, fr, i, n, args)
            if isinstance(r, list):
                return r
            return [(st, r)]
        return self.unknown(i, n, st, fr, vs, obj)

    def override(self, f, tt):
        return f

    def recursive(self, fr, f):
        c = 0
        x = fr
        while x is not None:
            if x.fn.fid == f.fid:
                c += 1
            x = x.parent
        return c >= 2

    def noreturn(self, i, n, st, fr, name, vs):
        b = n['n']
        if b in ('exit', '_exit', '_Exit', 'quick_exit'):
            self.exit(st, self.load(st, vs[0]) if vs else K(0), fr, n, 'exit')
        else:
            self.exit(st, K(134), fr, n, 'abort')
        return []

    def exit(self, st, status, fr, n, kind):
        self.hook('on_exit', st, status, fr, n, kind)

    def unknown(self, i, n, st, fr, vs, obj):
        """library function without a model: havoc what it may write"""
        nm = (n.get('cls', '') + '::' if n.get('cls') else '') + n.get('n', '?')
        self.unmodelled[nm] = self.unmodelled.get(nm, 0) + 1
        pts = n.get('pt', [])
        lams = []
        for j, v in enumerate(vs):
            t = pts[j] if j < len(pts) else ''
            if isinstance(v, L):
                if '&' in t and not t.startswith('const ') and '&&' not in t:
                    self.havoc(st, tuple(v))
                x = st.raw(tuple(v))
                if x is not None and x.op in ('lam', 'func'):
                    lams.append(x)
            elif v.op == 'addr' and '*' in t and not t.startswith('const '):
                self.havoc(st, v.a[0])
            elif v.op in ('lam', 'func'):
                lams.append(v)
        if obj is not None and not n.get('cm'):
            if isinstance(obj, L):
                self.havoc(st, tuple(obj))
            elif n.get('arrow') and obj.op == 'addr':
                self.havoc(st, obj.a[0])
        states = [st]
        for lm in lams:
            nxt = []
            for s in states:
                nxt += self.callback(lm, s, fr, i, n)
            states = nxt
        out = []
        for s in states:
            out.append((s, self.result(i, n, s, fr)))
        return out

    def result(self, i, n, st, fr):
        t = n.get('t', '')
        if self.kind(t) in OBJ:
            loc = self.tmp(fr, i)
            self.havoc(st, loc)
            return L(loc)
        return self.fresh_of(t, n.get('n', 'call'))

    def callback(self, lm, st, fr, i, n, args=None):
        """library code may call lm any number of times with unknown arguments"""
        g = self.prog.fns.get(lm.a[0]) or self.prog.generic.get(lm.a[0])
        if g is None:
            return [st]
        def body(s):
            vs = []
            for p in g.params:
                if args is not None and len(vs) < len(args):
                    vs.append(args[len(vs)])
                    continue
                if self.kind(p['t']) in OBJ or '&' in p['t']:
                    loc = (('cb', i, p['id'], fr.ctx),)
                    self.havoc(s, loc)
                    vs.append(L(loc))
                else:
                    vs.append(self.fresh_of(p['t'], p['n']))
            o = Out()
            for s2, _ in self.call_value(lm, s, fr, i, n, vs, g if g.kind == 'lambda' else None):
                o.n.append(s2)
            return o
        o = self.loop([st], fr, i, n, cond=None, body=body, inc=None)
        return o.n

    def inline(self, f, st, fr, i, n, vs, this=None, caps=None):
        if fr is not None and (fr.depth >= self.MAXDEPTH or self.recursive(fr, f)):
            return self.unknown(i, n, st, fr, vs, L(this) if this else None)
        if self.effects is not None and fr is not None and self.effects.summarisable(f):
            self.summarised[f.fid] = self.summarised.get(f.fid, 0) + 1
            return self.effects.apply(self, f, st, fr, i, n, vs, this)
        if self.has_goto(f):
            return self.goto_fn(f, st, fr, i, n, vs)
        c = self.ctx(fr, i, f.fid)
        nf = Frame(f, c, (fr.depth + 1) if fr else 0, fr, n)
        self.inlined[f.fid] = self.inlined.get(f.fid, 0) + 1
        if this is not None:
            st.put((('this', c),), mk('addr', this))
        if caps is not None:
            for d, t in caps:
                if d == 'this':
                    st.put((('this', c),), t)
                else:
                    st.put((('v', d, c), '#ref'), t)
        states = [st]
        for j, p in enumerate(f.params):
            loc = (('v', p['id'], c),)
            v = vs[j] if j < len(vs) else None
            t = p['t']
            for s in states:
                s.kill(loc)
                if v is None:
                    continue
                if '&' in t:
                    if isinstance(v, L):
                        s.put(loc + ('#ref',), mkaddr(v))
                    else:
                        s.put(loc, v)
                elif isinstance(v, L):
                    if self.kind(t) in OBJ:
                        self.copy_obj(s, tuple(v), loc)
                    else:
                        s.put(loc, self.load(s, v, fr, n))
                else:
                    s.put(loc, v)
            if v is None and 'def' in p:
                nxt = []
                for s in states:
                    nxt += self.ev_into(p['def'], s, nf, loc, t)
                states = nxt
        h = self.hook('on_enter', st, nf, f, n)
        # constructor initialisers
        if f.kind == 'ctor' and f.inits is not None:
            cls = self.prog.classes.get(self.ctor_type(f, this, st))
            for io in f.inits:
                if 'e' not in io:
                    continue
                nxt = []
                for s in states:
                    if 'm' in io:
                        ft = None
                        if cls is not None:
                            for fl in cls['fields']:
                                if fl['n'] == io['m']:
                                    ft = fl['t']
                        if ft is None:
                            ft = f.N[io['e']]['t']
                        nxt += self.ev_into(io['e'], s, nf, this + (io['m'],), ft)
                    else:
                        nxt += self.base_init(io, s, nf, this)
                states = nxt
            # members without an initialiser: indeterminate scalars
            if cls is not None:
                have = {io.get('m') for io in f.inits}
                deleg = any('m' not in io and not io.get('base') for io in f.inits)
                if not deleg:
                    for fl in cls['fields']:
                        if fl['n'] not in have and self.kind(fl['t']) in ('int', 'flt', 'ptr'):
                            for s in states:
                                s.put(this + (fl['n'],), mk('uninit', this + (fl['n'],)))
        rets = []
        retobj = self.kind(f.d['ret']) in OBJ and '&' not in f.d['ret'] and '*' not in f.d['ret']
        for s in states:
            o = self.ex(f.body, s, nf)
            for s2 in o.n:
                rets.append((s2, NOVAL))
            rets += o.r
        # leave: forget the callee's locals
        keep = ('r', c)
        cbases = None
        for s, v in rets:
            drop = [b for b in s.env if b[-1] == c and b[0] in ('v', 't', 'this', 'x', 'cb') and b != keep]
            for b in drop:
                del s.env[b]
                s.own.discard(b)
        if retobj and fr is not None:
            fr.temps.append(keep)
        out = self.merge_rets(rets, fr, i, n, c)
        hk = self.hook('on_leave', nf, f, n, out)
        return out

    def has_goto(self, f):
        r = self.gotos.get(f.fid)
        if r is None:
            r = self.gotos[f.fid] = any(x['k'] == 'goto' for x in f.N)
        return r

    def goto_fn(self, f, st, fr, i, n, vs):
        """generated state machines (parser, lexer): any action may run, any number of times, in any order"""
        c = self.ctx(fr, i, f.fid)
        nf = Frame(f, c, (fr.depth + 1) if fr else 0, fr, n)
        self.inlined[f.fid] = self.inlined.get(f.fid, 0) + 1
        sw = [j for j, x in enumerate(f.N) if x['k'] == 'switch']
        sub = []
        for x in f.N:
            g = self.prog.fns.get(x.get('fid')) if x['k'] == 'call' else None
            if g is not None and g.fid != f.fid and self.has_goto(g) and g not in sub:
                sub.append(g)
        acts = {}
        for j in sw:
            bn = f.N[f.N[j]['c'][1]]
            stm = bn.get('c', []) if bn['k'] == 'block' else []
            flat = []
            for x in stm:
                y = x
                while y >= 0 and f.N[y]['k'] in ('case', 'default'):
                    flat.append(None)
                    y = f.N[y]['c'][-1]
                if y >= 0:
                    flat.append(y)
            acts[j] = flat
        rets = []

        def body(s0):
            o = Out()
            outs = []
            for g in sub:
                outs += [x for x, _ in self.goto_fn(g, s0.copy(), nf, -5, n, [])]
            for j in sw:
                flat = acts[j]
                starts = [p for p, x in enumerate(flat) if x is None]
                for p in starts:
                    if p + 1 < len(flat) and flat[p + 1] is None:
                        continue
                    idx = [x for x in flat[p:] if x is not None]
                    r = self.seq(idx, [s0.copy()], nf)
                    outs += r.n + r.b + r.c
                    rets.extend(r.r)
            for s in outs:
                for b in [b for b in s.env if b[-1] == c and b[0] in ('v', 't', 'x')]:
                    del s.env[b]
                    s.own.discard(b)
            o.n = self.prune(outs)
            return o
        o = self.loop([st], fr or nf, -1000 - f.fid, n, cond=None, body=body, inc=None)
        rv = fresh(f.n, 0, 2, False, True)
        for s in o.n:
            self.hook('on_machine', s, fr, n, f, rv)
        return [(s, rv) for s in o.n]

    def ctor_type(self, f, this, st):
        t = st.raw(this + ('#ctype',))
        # class of the constructor: by its own class id
        cid = f.d.get('clsid')
        for c in self.prog.classes.values():
            if c['id'] == cid:
                return c['t']
        return None

    def base_init(self, io, st, nf, this):
        n = nf.fn.N[io['e']]
        while n['k'] in ('cast', 'defarg') and n.get('c'):
            io = dict(io, e=n['c'][0])
            n = nf.fn.N[io['e']]
        if n['k'] == 'ctor':
            f = self.prog.fns.get(n.get('fid'))
            if f is not None and f.kind == 'ctor':
                out = []
                for s, vs in self.evs(n.get('c', []), st, nf):
                    out += [s2 for s2, _ in self.inline(f, s, nf, io['e'], n, vs, this=this)]
                return out
            k = self.kind(n['t'])
            if k == 'class':
                cls = self.prog.classes[strip_t(n['t'])]
                if n.get('c') and (n.get('copy') or n.get('move')):
                    out = []
                    for s, v in self.ev(n['c'][0], st, nf):
                        if isinstance(v, L):
                            for p, val in s.subs(tuple(v)):
                                s.put(this + p, val)
                        out.append(s)
                    return out
                out = []
                for s, vs in self.evs(n.get('c', []), st, nf):
                    s2 = s
                    states = [s2]
                    for fl in cls['fields']:
                        nx = []
                        for x in states:
                            nx += self.default_field(x, nf, this + (fl['n'],), fl, cls)
                        states = nx
                    out += states
                return out
            if k in OBJ:
                out = []
                for s, vs in self.evs(n.get('c', []), st, nf):
                    if k in ('map', 'seq'):
                        s.put(this + ('#ep',), mk('ep', this, mk('zero')))
                        s.put(this + ('#size',), K(0))
                        s.put(this + ('#new',), K(1))
                    out.append(s)
                return out
        return [s for s, _ in self.ev(io['e'], st, nf)]

    def merge_rets(self, rets, fr, i, n, c):
        if len(rets) <= 1:
            return rets
        if any(isinstance(v, L) for _, v in rets):
            ls = {tuple(v) for _, v in rets if isinstance(v, L)}
            if len(ls) == 1:
                l = L(next(iter(ls)))
                sts = self.prune([s for s, v in rets if isinstance(v, L)])
                return [(s, l) for s in sts] + [(s, v) for s, v in rets if not isinstance(v, L)]
            return rets
        loc = (('x', i, 'ret', c),)
        sts = []
        for s, v in rets:
            s.put(loc, v)
            sts.append(s)
        sts = self.prune(sts)
        out = []
        for s in sts:
            v = s.get(loc)
            s.kill(loc)
            out.append((s, v))
        return out

    # ---------------------------------------------------------------- statements
    def ex(self, i, st, fr):
        if i is None or i < 0:
            return Out([st])
        n = fr.fn.N[i]
        k = n['k']
        self.curstmt = fr, n
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(i, n, st, fr)
        # expression statement
        mark = len(fr.temps)
        res = self.ev(i, st, fr)
        sts = [s for s, _ in res]
        if len(fr.temps) > mark:
            for b in fr.temps[mark:]:
                for s in sts:
                    if b in s.env:
                        s.kill((b,))
            del fr.temps[mark:]
        return Out(sts)

    def seq(self, idx, states, fr):
        out = Out()
        cur = states
        for i in idx:
            nxt = []
            for s in cur:
                o = self.ex(i, s, fr)
                nxt += o.n
                out.b += o.b
                out.c += o.c
                out.r += o.r
            cur = self.prune(nxt)
            if not cur:
                break
        out.n = cur
        return out

    def declared(self, n, fr):
        r = []
        for c in n.get('c', []):
            if c is None or c < 0:
                continue
            m = fr.fn.N[c]
            if m['k'] == 'decl':
                r += m['vars']
            elif m['k'] in ('case', 'default'):
                pass
        return r

    def needs_dtor(self, t):
        if '&' in t or t.rstrip().endswith('*'):
            return False
        k = self.kind(t)
        if k in ('stream', 'uptr'):
            return True
        if k == 'class':
            c = self.prog.classes[strip_t(t)]
            if any(m['kind'] == 'dtor' and m['user'] for m in c['methods']):
                return True
            return any(self.needs_dtor(f['t']) for f in c['fields'])
        return False

    def destroy(self, st, fr, loc, t, n):
        """-> [states]"""
        k = self.kind(t)
        self.hook('on_destroy', st, fr, loc, t, n)
        states = [st]
        if k == 'class':
            c = self.prog.classes[strip_t(t)]
            for m in c['methods']:
                if m['kind'] == 'dtor' and m['user']:
                    f = self.prog.fns.get(m['fid'])
                    if f is not None:
                        nxt = []
                        self.sink.append([])  # destructors are noexcept: an exception that leaves one ends the process
                        for s in states:
                            nxt += [s2 for s2, _ in self.inline(f, s, fr, -3 - hash(loc) % 100000, n, [], this=loc)]
                        self.sink.pop()
                        states = nxt
            for f in reversed(c['fields']):
                if self.needs_dtor(f['t']):
                    nxt = []
                    for s in states:
                        nxt += self.destroy(s, fr, loc + (f['n'],), f['t'], n)
                    states = nxt
        return states

    def leave_scope(self, st, fr, vars, n):
        states = [st]
        for v in reversed(vars):
            if v.get('static'):
                continue
            loc = (('v', v['id'], fr.ctx),)
            if self.needs_dtor(v['t']):
                nxt = []
                for s in states:
                    if loc[0] in s.env and (loc + ('#ref',))[1:] not in s.env[loc[0]]:
                        nxt += self.destroy(s, fr, loc, v['t'], n)
                    else:
                        nxt.append(s)
                states = nxt
            for s in states:
                if loc[0] in s.env:
                    s.kill(loc)
            for b in v.get('bind', []) or []:
                for s in states:
                    s.kill((('v', b['id'], fr.ctx),))
        return states

    def s_block(self, i, n, st, fr):
        vars = self.declared(n, fr)
        mark = len(fr.temps)
        if not vars:
            return self.seq(n.get('c', []), [st], fr)
        raii = any(self.needs_dtor(v['t']) for v in vars)
        if raii:
            self.sink.append([])
        for v in vars:
            st.kill((('v', v['id'], fr.ctx),))
        o = self.seq(n.get('c', []), [st], fr)
        if raii:
            thrown = self.sink.pop()
            for s, t in thrown:
                for s2 in self.leave_scope(s, fr, vars, n):
                    self.sink[-1].append((s2, t))
        r = Out()
        for s in o.n:
            r.n += self.leave_scope(s, fr, vars, n)
        for s in o.b:
            r.b += self.leave_scope(s, fr, vars, n)
        for s in o.c:
            r.c += self.leave_scope(s, fr, vars, n)
        for s, v in o.r:
            for s2 in self.leave_scope(s, fr, vars, n):
                r.r.append((s2, v))
        if len(fr.temps) > mark:
            for b in fr.temps[mark:]:
                for s in r.n + r.b + r.c + [x for x, _ in r.r]:
                    if b in s.env:
                        s.kill((b,))
            del fr.temps[mark:]
        return r

    def s_decl(self, i, n, st, fr):
        states = [st]
        for v in n.get('vars', []):
            nxt = []
            for s in states:
                nxt += self.decl1(v, n, s, fr)
            states = nxt
        return Out(states)

    def decl1(self, v, n, st, fr):
        loc = (('v', v['id'], fr.ctx),)
        if v.get('static'):
            return [st]
        t = v['t']
        st.kill(loc)
        if v.get('bind'):
            out = []
            if v.get('init') is None:
                return [st]
            for s, val in self.ev(v['init'], st, fr):
                if isinstance(val, L):
                    src = tuple(val)
                    if '&' not in t:
                        self.copy_obj(s, src, loc)
                        src = loc
                    self.bind(s, fr, v['bind'], src, t)
                else:
                    s.put(loc, val)
                    for b in v['bind']:
                        s.put((('v', b['id'], fr.ctx),), fresh('bind'))
                out.append(s)
            return out
        if v.get('init') is not None:
            r = self.ev_into(v['init'], st, fr, loc, t)
            for s in r:
                self.hook('on_decl', s, fr, n, v, loc)
            return r
        return self.default_obj(st, fr, loc, t)

    def bind(self, st, fr, binds, src, t, cur=None):
        k = self.kind(t)
        names = ('first', 'second')
        cls = self.prog.classes.get(strip_t(t))
        for j, b in enumerate(binds):
            if cls is not None and j < len(cls['fields']):
                f = cls['fields'][j]['n']
            elif strip_t(t).startswith('std::tuple'):
                f = ('#t', j)
            else:
                f = names[j] if j < 2 else ('#t', j)
            tgt = src + (f,)
            r = st.raw(tgt + ('#ref',))
            if r is not None and r.op == 'addr':
                tgt = r.a[0]
            st.put((('v', b['id'], fr.ctx), '#ref'), mkaddr(LC(tgt, cur if self.weak(tgt) else None)))

    def s_if(self, i, n, st, fr):
        states = [st]
        vars = []
        for key in ('init', 'cvar'):
            if key in n:
                m = fr.fn.N[n[key]]
                vars += m.get('vars', [])
                nxt = []
                for s in states:
                    nxt += self.ex(n[key], s, fr).n
                states = nxt
        c, a, b = n['c']
        out = Out()
        cn = fr.fn.N[c] if c >= 0 else {}
        if n.get('constexpr') and 'cv' in cn:
            br = a if cn['cv'] else b
            for s in states:
                o = self.ex(br, s, fr)
                out.n += o.n; out.b += o.b; out.c += o.c; out.r += o.r
            return out
        for s in states:
            T, F = self.cond(c, s, fr)
            for x in T:
                o = self.ex(a, x, fr)
                out.n += o.n; out.b += o.b; out.c += o.c; out.r += o.r
            for x in F:
                if b >= 0:
                    o = self.ex(b, x, fr)
                    out.n += o.n; out.b += o.b; out.c += o.c; out.r += o.r
                else:
                    out.n.append(x)
        if vars:
            for s in out.n + out.b + out.c:
                for v in vars:
                    s.kill((('v', v['id'], fr.ctx),))
        out.n = self.prune(out.n)
        return out

    def s_return(self, i, n, st, fr):
        o = Out()
        if not n['c']:
            o.r.append((st, NOVAL))
            return o
        ret = fr.fn.d['ret']
        k = self.kind(ret)
        if '&' not in ret and k in OBJ:
            loc = (('r', fr.ctx),)
            for s in self.ev_into(n['c'][0], st, fr, loc, ret):
                o.r.append((s, L(loc)))
            return o
        for s, v in self.ev(n['c'][0], st, fr):
            if '&' not in ret and isinstance(v, L):
                v = self.load(s, v, fr, n)
            o.r.append((s, v))
        self.hook('on_return', fr, n, o.r)
        return o

    def s_break(self, i, n, st, fr):
        o = Out()
        o.b.append(st)
        return o

    def s_continue(self, i, n, st, fr):
        o = Out()
        o.c.append(st)
        return o

    def s_nop(self, i, n, st, fr):
        return Out([st])

    def s_label(self, i, n, st, fr):
        return self.ex(n['c'][0], st, fr)

    def s_goto(self, i, n, st, fr):
        o = Out()
        o.b.append(st)
        return o

    def s_omp(self, i, n, st, fr):
        o = Out([st])
        for c in n.get('c', []):
            o = self.ex(c, st, fr)
        return o

    def s_for(self, i, n, st, fr):
        init, c, inc, body = n['c']
        vars = []
        states = [st]
        if init >= 0:
            m = fr.fn.N[init]
            if m['k'] == 'decl':
                vars = m['vars']
            states = self.ex(init, st, fr).n
        o = self.loop(states, fr, i, n,
                      cond=(lambda s: self.cond(c, s, fr)) if c >= 0 else None,
                      body=lambda s: self.ex(body, s, fr),
                      inc=(lambda s: self.ex(inc, s, fr).n) if inc >= 0 else None, infinite=c < 0)
        for v in vars:
            for s in o.n:
                s.kill((('v', v['id'], fr.ctx),))
        return o

    def s_while(self, i, n, st, fr):
        c, body = n['c']
        def cnd(s):
            if 'cvar' in n:
                T, F = [], []
                for x in self.ex(n['cvar'], s, fr).n:
                    t, f = self.cond(c, x, fr)
                    T += t
                    F += f
                return T, F
            return self.cond(c, s, fr)
        cn = fr.fn.N[c]
        return self.loop([st], fr, i, n, cond=cnd, body=lambda s: self.ex(body, s, fr), inc=None, infinite=cn.get('cv') == 1)

    def s_do(self, i, n, st, fr):
        body, c = n['c']
        o = self.loop([st], fr, i, n, cond=lambda s: self.cond(c, s, fr), body=lambda s: self.ex(body, s, fr), inc=None, dowhile=True)
        return o

    def s_rangefor(self, i, n, st, fr):
        rng, body = n['c']
        out = Out()
        states = [st]
        if 'init' in n:
            states = self.ex(n['init'], st, fr).n
        v = n['var']
        for s0 in states:
            for s, rv in self.ev(rng, s0, fr):
                rt = fr.fn.N[rng]['t']
                k = self.kind(rt)
                src = tuple(rv) if isinstance(rv, L) else None
                if src is not None:
                    r = s.raw(src + ('#ref',))
                size = s.get(src + ('#size',)) if src is not None and k in ('seq', 'map') else None
                if k == 'class' and src is not None:
                    k = 'map' if any(self.kind(b['t']) == 'map' for b in self.prog.classes[strip_t(rt)]['bases']) else 'seq'
                    size = s.get(src + ('#size',))
                iteration = fresh('iter')
                def bodyf(x, src=src, k=k, rv=rv):
                    x.kill((('v', v['id'], fr.ctx),))
                    loc = (('v', v['id'], fr.ctx),)
                    el = None
                    if src is not None and k == 'seq' or k == 'arr':
                        el = src + ('#elem',)
                    elif src is not None and k == 'map':
                        el = src + ('#kv',)
                        # key/value summary
                        x.put(el + ('first', '#ref'), mk('addr', src + ('#key',)))
                        x.put(el + ('second', '#ref'), mk('addr', src + ('#elem',)))
                    self.hook('on_range_iter', x, fr, n, src, k)
                    if el is None:
                        if v.get('bind') or n.get('bind'):
                            for b in n.get('bind', []):
                                x.put((('v', b['id'], fr.ctx),), fresh('elem'))
                        elif self.kind(v['t']) in OBJ:
                            self.havoc(x, loc)
                        else:
                            x.put(loc, self.fresh_of(v['t'], 'elem') if not (not isinstance(rv, L) and rv.op in ('s', 'cat', 'init')) else fn('ch', rv, fresh('i')))
                    elif n.get('bind'):
                        tgt = el
                        if '&' not in v['t']:
                            self.copy_obj(x, el, loc)
                            tgt = loc
                        self.bind(x, fr, n['bind'], tgt, v['t'], iteration)
                    elif '&' in v['t']:
                        x.put(loc + ('#ref',), mkaddr(LC(el, iteration)))
                    elif self.kind(v['t']) in OBJ:
                        self.copy_obj(x, el, loc)
                    else:
                        x.put(loc, inst(x.get(el), iteration))
                        if self.onelem:
                            self.onelem(x, el, inst(x.get(el), iteration))
                    o = self.ex(body, x, fr)
                    for y in o.n + o.c + o.b:
                        y.kill(loc)
                        for b in n.get('bind', []) or []:
                            y.kill((('v', b['id'], fr.ctx),))
                    return o
                o = self.loop([s], fr, i, n, cond=None, body=bodyf, inc=None, size=size)
                out.n += o.n
                out.r += o.r
        out.n = self.prune(out.n)
        return out

    def loop(self, entry, fr, i, n, cond, body, inc, infinite=False, dowhile=False, size=None):
        """fixpoint; cond None: unknown number of iterations (0..)"""
        groups = {}
        for s in entry:
            groups.setdefault(self.sig(s), []).append(s)
        out = Out()
        for g in groups.values():
            e = g[0] if len(g) == 1 else self.join(g)
            o = self.loop1(e, fr, i, n, cond, body, inc, infinite, dowhile, size)
            out.n += o.n
            out.r += o.r
        out.n = self.prune(out.n)
        return out

    def loop_exit(self, exits, brk, fr, n):
        for x in exits:
            self.hook('on_loop_exit', x, fr, n, 'done')
        for x in brk:
            self.hook('on_loop_exit', x, fr, n, 'break')
        return self.prune(exits + brk)

    def loop1(self, entry, fr, i, n, cond, body, inc, infinite, dowhile, size):
        self.loopno += 1
        name = ('loop', self.loopno)
        head = entry.copy()
        self.hook('on_loop_entry', head, fr, n)
        zero = None
        if size is not None:
            x = self.iv(entry, size)
            zero = x.lo >= 1  # at least one iteration
            empty = x.hi <= 0
        else:
            empty = False
        maxit = 10
        final = False
        it = 0
        definite = False
        if cond is not None and not dowhile and not infinite:
            # is the first iteration certain?
            self.quiet += 1
            self.sink.append([])
            definite = not cond(entry.copy())[1]
            self.sink.pop()
            self.quiet -= 1
        while True:
            it += 1
            last = final
            if not last:
                self.quiet += 1
                self.sink.append([])
            h = head.copy()
            exits, rets, backs, brk = [], [], [], []
            self.hook('on_loop_iter', h, fr, n)
            if dowhile:
                T = [h]
            elif cond is None:
                T = [] if empty else [h.copy()]
                if not infinite:
                    exits.append(h.copy())
            else:
                T, F = cond(h)
                exits += F
                nf = len(F)
            for s in T:
                o = body(s)
                rets += o.r
                brk += o.b
                cont = o.n + o.c
                cont = self.prune(cont)
                if inc is not None:
                    nx = []
                    for x in cont:
                        nx += inc(x)
                    cont = nx
                if dowhile:
                    for x in cont:
                        t, f = cond(x)
                        backs += t
                        exits += f
                else:
                    backs += cont
            if not last:
                self.quiet -= 1
                thrown = self.sink.pop()
            if last:
                for b in backs:
                    self.hook('on_loop_back', b, fr, n)
                if definite:
                    # the loop is only left by its condition after an iteration
                    exits = exits[nf:]
                    if backs:
                        exits = cond(backs[0].copy() if len(backs) == 1 else self.join(backs))[1] + exits
                if cond is None and zero and backs:
                    # container known non-empty: leave only after an iteration
                    exits = [x for x in exits[1:]] + [b.copy() for b in backs]
                r = Out()
                r.n = self.loop_exit(exits, brk, fr, n)
                for x in rets:
                    self.hook('on_loop_exit', x[0], fr, n, 'return')
                r.r = rets
                return r
            if not backs:
                final = True
                continue
            new = self.join([entry] + backs, name=name, wid=it == 1)
            if it > 1:
                # widen
                for k in list(new.facts):
                    v = new.facts[k]
                    if not isinstance(v, Iv):
                        continue
                    ov = head.facts.get(k)
                    if ov is None or not isinstance(ov, Iv):
                        if it > 4:
                            del new.facts[k]
                        continue
                    w = widen(ov, v)
                    if w.is_top() or (it > maxit and w != ov):
                        del new.facts[k]
                    else:
                        new.facts[k] = w
            if it > maxit + 5:
                new.facts = {k: v for k, v in new.facts.items() if head.facts.get(k) == v}
            if it > 18:
                for b in set(new.env) | set(head.env):
                    x, y = new.env.get(b, {}), head.env.get(b, {})
                    if x is y:
                        continue
                    for q in set(x) | set(y):
                        if x.get(q) is not y.get(q):
                            l2 = (b,) + q
                            if q and q[-1] == '#ep':
                                new.put(l2, mk('ep', l2[:-1], mk('phi', name, l2)))
                            elif not (q and q[-1] == '#ref'):
                                new.put(l2, mk('phi', name, l2))
            if it > 40:
                df = []
                for b in set(new.env) | set(head.env):
                    x, y = new.env.get(b, {}), head.env.get(b, {})
                    for q in set(x) | set(y):
                        if x.get(q) is not y.get(q):
                            df.append(f'{b} {q}: {y.get(q)} -> {x.get(q)}')
                for q in set(new.facts) | set(head.facts):
                    if new.facts.get(q) != head.facts.get(q):
                        df.append(f'fact {q}: {head.facts.get(q)} -> {new.facts.get(q)}')
                raise AnalysisBroken(f'loop did not converge at {self.where(fr, n)}: ' + '; '.join(df[:6]))
            if self.same_env(new, head) and new.facts == head.facts:
                if self.quiet and not dowhile and not (cond is None and zero):
                    # already a pass over the stable head: its exits are the result
                    r = Out()
                    r.n = self.loop_exit(exits, brk, fr, n)
                    r.r = rets
                    self.sink[-1] += thrown
                    return r
                final = True
            head = new

    def s_switch(self, i, n, st, fr):
        states = [st]
        if 'init' in n:
            states = self.ex(n['init'], st, fr).n
        c, body = n['c']
        bn = fr.fn.N[body]
        stm = bn.get('c', []) if bn['k'] == 'block' else [body]
        # flatten: sequence of ('case',value nodes)/statement
        flat = []
        def add_stmt(x):
            m = fr.fn.N[x]
            if m['k'] == 'case':
                flat.append(('case', m['c'][0]))
                add_stmt(m['c'][1])
            elif m['k'] == 'default':
                flat.append(('default', None))
                add_stmt(m['c'][0])
            else:
                flat.append(('st', x))
        for x in stm:
            if x >= 0:
                add_stmt(x)
        vars = self.declared(bn, fr)
        out = Out()
        for s0 in states:
            for s, v in self.rv(c, s0, fr):
                vals = []
                rest = s.copy()
                rest_ok = True
                entries = []
                for p, (kk, x) in enumerate(flat):
                    if kk == 'case':
                        cv = fr.fn.N[x].get('cv')
                        kt = K(cv) if cv is not None else self.rv(x, s, fr)[0][1]
                        ct = self.cmpterm('==', v, kt, 'i')
                        s1 = s.copy()
                        if self.assume(s1, ct, True):
                            entries.append((p, s1))
                        if rest_ok:
                            rest_ok = self.assume(rest, ct, False)
                dflt = [p for p, (kk, x) in enumerate(flat) if kk == 'default']
                if rest_ok:
                    if dflt:
                        entries.append((dflt[0], rest))
                    else:
                        out.n.append(rest)
                for p, s1 in entries:
                    self.hook('on_case', s1, fr, n, v)
                    idx = [x for kk, x in flat[p:] if kk == 'st']
                    o = self.seq(idx, [s1], fr)
                    out.n += o.n + o.b
                    out.c += o.c
                    out.r += o.r
        for s in out.n + out.c:
            for v in vars:
                s.kill((('v', v['id'], fr.ctx),))
        out.n = self.prune(out.n)
        return out

    def s_case(self, i, n, st, fr):
        return self.ex(n['c'][1], st, fr)

    def s_default(self, i, n, st, fr):
        return self.ex(n['c'][0], st, fr)

    def s_try(self, i, n, st, fr):
        self.sink.append([])
        self.try_depth += 1
        o = self.ex(n['c'][0], st, fr)
        self.try_depth -= 1
        self.compact_sink()
        thrown = self.sink.pop()
        out = Out()
        out.n, out.b, out.c, out.r = list(o.n), list(o.b), list(o.c), list(o.r)
        for s, t in thrown:
            rest = [(s, t)]
            for hi in n['c'][1:]:
                h = fr.fn.N[hi]
                m = self.catches(h['ct'], t)
                if m == 0:
                    continue
                hs = s.copy() if m == 1 else s
                old = hs.ghost('exc')
                hs.setghost(mk('exc', t), 'exc')
                if 'var' in h:
                    loc = (('v', h['var']['id'], fr.ctx),)
                    hs.kill(loc)
                    hs.put(loc, mk('exc', t))
                self.hook('on_catch', hs, fr, h, t)
                oo = self.ex(h['c'][0], hs, fr)
                for s2 in oo.n + oo.b + oo.c + [x for x, _ in oo.r]:
                    if 'var' in h:
                        s2.kill((('v', h['var']['id'], fr.ctx),))
                    if old is None:
                        s2.delghost('exc')
                    else:
                        s2.setghost(old, 'exc')
                out.n += oo.n; out.b += oo.b; out.c += oo.c; out.r += oo.r
                if m == 2:
                    rest = []
                    break
            for s2, t2 in rest:
                self.sink[-1].append((s2, t2))
        out.n = self.prune(out.n)
        return out

    def catches(self, ct, t):
        """0 no, 1 maybe, 2 yes"""
        if ct == '...':
            return 2
        c = strip_t(ct)
        if t == c:
            return 2
        if t in ('lib', '?'):
            return 1 if c != 'std::exception' else (2 if t == 'lib' else 1)
        if c == 'std::exception':
            if t.startswith('std::'):
                return 2
            cl = self.prog.classes.get(t)
            seen = 0
            while cl is not None and seen < 5:
                for b in cl['bases']:
                    if b['t'].startswith('std::'):
                        return 2
                cl = self.prog.classes.get(cl['bases'][0]['t']) if cl['bases'] else None
                seen += 1
            return 0
        H = {'std::runtime_error': ('std::range_error', 'std::overflow_error', 'std::underflow_error', 'std::system_error', 'std::ios_base::failure'),
             'std::logic_error': ('std::invalid_argument', 'std::domain_error', 'std::length_error', 'std::out_of_range')}
        return 2 if t in H.get(c, ()) else 0

    # ---------------------------------------------------------------- entry points
    def init_globals(self, st):
        for g in self.prog.glist:
            loc = (('g', g['q'] + (f"@{g['id']}" if g.get('static') else '')),)
            if g.get('extern') and 'init' not in g:
                continue
            if 'init' in g and g.get('nodes'):
                fr = Frame(PseudoFn(g), self.ctx(None, g['id'], 0), 0)
                try:
                    r = self.ev_into(g['init'], st, fr, loc, g['t'])
                except (KeyError, AssertionError):
                    r = []
                if len(r) == 1:
                    st = r[0]
                else:
                    self.havoc(st, loc)
            else:
                k = self.kind(g['t'])
                if k in OBJ and k != 'arr':
                    r = self.default_obj(st, Frame(PseudoFn({'nodes': [], 'file': '', 'line': 0}), 0, 0), loc, g['t'])
                    st = r[0]
                elif k == 'str':
                    st.put(loc, S(''))
                else:
                    self.newobj(st, loc)
                    st.put(loc, K(0))
        return st

    def run_main(self, args=True):
        f = self.prog.main()
        if f is None:
            raise AnalysisBroken('no main function')
        st = St()
        st = self.init_globals(st)
        ext = self.hook('on_start', st)
        argc = fresh('argc', 1, None, False, True)
        self.argc = argc
        self.optind0 = K(1)
        st.put((('g', 'optind'),), K(1))
        st.put((('g', 'std::cout'), '#prec'), K(6))
        for nm in ('std::cout', 'std::cerr', 'std::clog', 'std::cin'):
            st.put((('g', nm), '#open'), K(1))
            st.put((('g', nm), '#ok'), K(1))
            st.put((('g', nm), '#prec'), K(6))
            st.put((('g', nm), '#dir'), S('std'))
            st.put((('g', nm), '#name'), S(nm))
        vs = [argc, ARGV][:len(f.params)]
        rets = self.inline(f, st, None, 0, {'c': [], 'l': f.line}, vs)
        fr = Frame(f, 0, 0)
        for s, v in rets:
            self.exit(s, v, fr, {'l': f.d.get('end', f.line)}, 'main')
        for s, t in self.sink[0]:
            self.hook('on_uncaught', s, t, fr)
            self.exit(s, K(134), fr, {'l': f.line}, 'uncaught')
        return rets


class PseudoFn:
    """node holder for initialisers outside functions"""
    def __init__(self, d):
        self.d = {'ret': 'void'}
        self.N = d.get('nodes', [])
        self.fid = -d.get('id', 0)
        self.q = d.get('q', '')
        self.n = ''
        self.file = d.get('file', '')
        self.line = d.get('l', d.get('line', 0))
        self.kind = 'init'
        self.pk = None


_cntp = [0]
STMTS = ('block', 'if', 'for', 'while', 'do', 'rangefor', 'switch', 'case', 'default', 'break', 'continue', 'return', 'try', 'omp', 'label', 'goto')
NOTHROW = {'operator!', 'operator bool', 'fail', 'good', 'bad', 'eof', 'is_open', 'c_str', 'size', 'empty', 'begin', 'end', 'data', 'operator[]', 'what', 'front', 'back', 'length'}


def strip_targs(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        ch = q[i]
        if ch == '<' and not q[max(0, i - 8):i].endswith('operator') and not q[max(0, i - 9):i].endswith('operator<'):
            d += 1
        elif ch == '>' and d > 0:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


import models  # noqa: E402,F401  (fills MODELS)
