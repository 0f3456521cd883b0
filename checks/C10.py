"""C10: solver parameters are unique, validated and exhaustively parsed."""
import re

import absint
import astu
import C06
import common
import coredrv
from absint import L, OBJ, NOVAL
import models
from terms import K, S, fresh, mk, fn

NAN = fresh('not a number')
THIS = (('root', 'this'),)


def contains(t, x, memo=None):
    memo = {} if memo is None else memo
    if t is x:
        return True
    if not hasattr(t, 'a'):
        return False
    r = memo.get(t.id)
    if r is None:
        memo[t.id] = r = any(contains(y, x, memo) for y in t.a if hasattr(y, 'a'))
    return r


def mentions(t, loc, memo=None):
    """does the term depend on the object at loc?"""
    memo = {} if memo is None else memo
    if not hasattr(t, 'a'):
        return isinstance(t, tuple) and t[:len(loc)] == loc
    r = memo.get(t.id)
    if r is None:
        memo[t.id] = False
        memo[t.id] = r = any(mentions(y, loc, memo) for y in t.a)
    return r


class Interp(coredrv.CoreInterp):
    """with parameters that have a fixed (symbolic) value from the moment they are set"""
    pins = {}
    root = THIS
    opaque = staticmethod(lambda f: False)
    active = False

    def cmpterm(self, op, a, b, isf):
        if a is NAN or b is NAN:
            return K(int(op == '!='))
        return super().cmpterm(op, a, b, isf)

    def pinned(self, loc):
        for k, v in self.pins.items():
            full = self.root + k
            if loc == full:
                return v
        return None

    def store(self, st, loc, val):
        p = self.pinned(tuple(loc)) if self.pins else None
        super().store(st, loc, val if p is None else p)

    def pin(self, st, under):
        for k, v in self.pins.items():
            full = self.root + k
            if full[:len(under)] == under:
                st.put(full, v)

    def havoc(self, st, loc, *a, **k):
        r = super().havoc(st, loc, *a, **k)
        if self.pins and isinstance(loc, tuple):
            self.pin(st, tuple(loc))
        return r

    def inline(self, f, st, fr, i, n, vs, this=None, **kw):
        if fr is None or not self.opaque(f):
            return super().inline(f, st, fr, i, n, vs, this=this, **kw)
        self.hook('on_opaque', st, fr, n, f, vs)
        for p, v in zip(f.params, vs):
            if '&' in p['t'] and not p['t'].startswith('const') and isinstance(v, L):
                self.havoc(st, tuple(v))
        if f.kind == 'ctor':
            if this is not None:
                self.havoc(st, this)
            return [(st, NOVAL)]
        t = f.d['ret']
        if self.kind(t) in OBJ and '*' not in t:
            loc = self.tmp(fr, i)
            st.kill(loc)
            return [(st, L(loc))]
        if absint.strip_t(t) == 'void':
            return [(st, NOVAL)]
        return [(st, self.fresh_of(t, f.n))]


# ------------------------------------------------------------------ the assignment of the values in the input
ASK = re.compile(r'std::(unordered_)?map::(count|contains|find|at|operator\[\]|extract)$')
DROP = re.compile(r'std::(unordered_)?map::(erase|extract|clear)$')


STATE = ('parsed', 'complete', 'set', 'wkey', 'wval', 'reported', 'asked')


class Assign(coredrv.Hooks):
    """the constructor that reads the parameter file"""
    setloops = ()

    def __init__(self, *a):
        super().__init__(*a)
        self.normal = 0
        self.maps = set()
        self.backs = {}

    def bad(self, rule, I, fr, n, text):
        if not I.quiet:
            self.add(rule, rule, I.where(fr, n), text)

    def on_start(self, I, st):
        for g in STATE:
            st.setghost(K(0), g)

    def signature(self, I, st):
        return tuple(str(st.ghost(g)) for g in STATE)

    def on_loop_iter(self, I, st, fr, n):
        if id(n) in self.setloops:
            st.setghost(K(1), 'parsed')
            st.setghost(K(0), 'complete')
            I.pin(st, I.root)
            st.setghost(K(0), 'set')
            st.setghost(K(0), 'asked')
            st.setghost(K(0), 'reported')
        st.setghost(K(0), 'wkey')
        st.setghost(K(0), 'wval')

    def live_terms(self, I, st):
        return list(I.pins.values()) + self.asked(st)

    def asked(self, st):
        out, t = [], st.ghost('asked')
        while hasattr(t, 'op') and t.op == 'asked':
            out.append(t)
            t = t.a[3]
        return out

    def on_branch(self, I, st, fr, n, v, truth):
        for m in self.maps:
            if I.decide(st, I.cmpterm('==', models.size_of(I, st, m), K(0), 'i')) == 1:
                st.setghost(K(1), 'reported')

    def value(self, I, st, v):
        return I.load(st, v) if isinstance(v, L) else v

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        b, name = n.get('n'), name or ''
        if b == 'set_str' and n['k'] == 'mcall':
            self.assigned(I, st, fr, n, vs[0] if vs else None, obj)
        elif DROP.match(name) and st.ghost('parsed') == K(1) and st.ghost('complete') == K(0) and st.ghost('set') != K(1):
            self.bad('a value is dropped only after it was assigned', I, fr, n, 'a value read from the input is removed from the pending ones before it was assigned to a parameter')
        elif b in ('print', 'println', 'format', 'format_to'):
            for v in vs:
                self.wrote(I, st, v)
        if ASK.match(name) and vs and obj is not None:
            loc = tuple(obj) if isinstance(obj, (L, tuple)) else I.deref(st, obj)
            key = self.value(I, st, vs[0])
            if hasattr(key, 'a'):
                old = st.ghost('asked')
                st.setghost(mk('asked', mk('addr', loc), key, models.mapver(st, loc), old if hasattr(old, 'op') and old.op == 'asked' else K(0)), 'asked')
        return None

    def assigned(self, I, st, fr, n, v, obj):
        ob = tuple(obj) if isinstance(obj, (L, tuple)) else I.deref(st, obj)
        kw = I.load(st, L(ob + ('keyword',)))
        ask = self.asked(st)
        maps = {g.a[0].a[0] for g in ask}
        if not I.quiet:
            self.site('assignments of a value from the input', I.where(fr, n))
            for g in ask:
                if g.a[1] is not kw:
                    self.bad('the value of the keyword is used', I, fr, n, 'the values read from the input are searched for something else than the keyword of the parameter that is set')
        t = self.value(I, st, v)
        ok = isinstance(v, L) and any(tuple(v)[:len(m)] == m for m in maps)
        ok = ok or any(mentions(t, m) or contains(t, I.load(st, L(m + ('#elem',)))) for m in maps)
        if not ok:
            self.bad('the value of the keyword is used', I, fr, n, 'the value assigned to a parameter is not the one read from the input for its keyword')
        self.maps |= maps
        st.setghost(K(1), 'set')
        I.pin(st, I.root)

    def wrote(self, I, st, v):
        t = self.value(I, st, v)
        loc = tuple(v) if isinstance(v, L) else ()
        for src in self.maps:
            for g, tail in (('wkey', '#key'), ('wval', '#elem')):
                x = I.load(st, L(src + (tail,)))
                if loc[:len(src)] == src and tail in loc or hasattr(t, 'a') and (contains(t, x) or mentions(t, src + (tail,))):
                    st.setghost(K(1), g)

    def on_write(self, I, st, fr, n, loc, v, t):
        self.wrote(I, st, v)

    def on_loop_back(self, I, st, fr, n):
        if I.quiet:
            return
        both = st.ghost('wkey') == K(1) and st.ghost('wval') == K(1)
        self.backs[id(n)] = self.backs.get(id(n), True) and both
        if id(n) in self.setloops:
            self.site('paths through the assignment loop', (I.where(fr, n), len(self.backs)))
            if st.ghost('set') != K(1) and not any(I.decide(st, fn('found', g.a[2], g.a[1])) == 0 for g in self.asked(st)):
                self.bad('every value in the input is assigned', I, fr, n, 'a parameter is passed over although the input may hold a value for its keyword')

    def on_loop_exit(self, I, st, fr, n, how):
        if id(n) in self.setloops:
            st.setghost(K(int(how == 'done')), 'complete')
        elif how == 'done' and not I.quiet and self.backs.get(id(n)):
            st.setghost(K(1), 'reported')

    def on_exit(self, I, st, status, fr, n, kind):
        if kind == 'throw':
            return
        if kind != 'return':
            iv = I.iv(st, status) if status is not None and not isinstance(status, (str, L)) else None
            if iv is not None and not iv.lo <= 0 <= iv.hi:
                return
        if st.ghost('parsed') == K(1):
            self.normal += 1
            if not I.pins:
                self.after(I, st, fr, n)

    def after(self, I, st, fr, n):
        self.site('normal ends of the constructor', self.normal)
        if st.ghost('complete') != K(1):
            self.bad('every value in the input is assigned', I, fr, n, f'{self.tool} returns although the loop over the parameters was left early')
        if st.ghost('reported') != K(1):
            self.bad('values that belong to no parameter are reported', I, fr, n, f'{self.tool} returns without having written the keywords and the values that no parameter has taken')


def fieldvals(P, cls):
    return {m['n']: m for m in cls.get('fields', [])}


def allparams(P, c):
    """parameter objects declared in a class: name, keyword, default, container"""
    out = []
    for m in c.get('fields', []):
        if re.match(r'(const )?(NRG::)?param<', m['t']):
            ss = C06.init_strings(c, m)
            N = c['nodes']
            top = m.get('initn', -1)
            out.append((m['n'], ss, m, m.get('l')))
    return out


FLAGS = ('cfs', 'cfsgt', 'cfsls', 'fdm', 'fdmgt', 'fdmls', 'fdmmats', 'fdmexpv')


def settings(I, fl):
    """inconsistent settings: description, pins, constraints"""
    def sym(n, isint=False):
        return fresh(n, None, None, False, isint)
    out = []

    def one(text, vals, cons=()):
        if all(n in fl for n in vals):
            out.append((text, vals, cons))
        else:
            out.append((text, None, ()))
    T, keep, lam, dr, kmin = sym('T'), sym('keep', True), sym('Lambda'), sym('diagratio'), sym('keepmin', True)
    one('T <= 0', {'T': T}, [('<=', T, K(0), 'f')])
    one('T is not a number', {'T': NAN})
    one('keep <= 1', {'keep': keep}, [('<=', keep, K(1), 'i')])
    one('Lambda <= 1', {'Lambda': lam}, [('<=', lam, K(1), 'f')])
    one('Lambda is not a number', {'Lambda': NAN})
    for d in ('dsyevr', 'zheevr'):
        one(f'diag={d}, diagratio <= 0', {'diag': S(d), 'diagratio': dr}, [('<=', dr, K(0), 'f')])
        one(f'diag={d}, diagratio > 1', {'diag': S(d), 'diagratio': dr}, [('<', K(1), dr, 'f')])
        one(f'diag={d}, diagratio is not a number', {'diag': S(d), 'diagratio': NAN})
        for f in FLAGS:
            one(f'diag={d}, diagratio < 1, {f}=true', {'diag': S(d), 'diagratio': dr, f: K(1)}, [('<', K(0), dr, 'f'), ('<', dr, K(1), 'f')])
    one('dumpabs=true, dumpscaled=true', {'dumpabs': K(1), 'dumpscaled': K(1)})
    e = sym('keepenergy')
    one('keepenergy > 0, keepmin > keep', {'keepenergy': e, 'keep': keep, 'keepmin': kmin}, [('<', K(0), e, 'f'), ('<', keep, kmin, 'i'), ('<', K(1), keep, 'i')])
    return out


def interp(P, f, cls, pins, cons, root, opaque, setloops, label, early=False):
    h = cls(label)
    h.P = P
    h.setloops = setloops
    I = Interp(P, h, libthrow=False)
    I.pins, I.root, I.opaque = pins, root, opaque
    h.I = I
    base = h.on_start

    def start(I, st):
        base(I, st)
        for op, a, b, isf in cons:
            I.assume(st, I.cmpterm(op, a, b, isf), True)
        if early:
            for k, v in pins.items():
                if k[0] in early:
                    st.put(root + k, v)
    h.on_start = start
    I.run_function(f)
    return h, I


def setters(P):
    return {f.fid for f in P.fns.values() if any(n['k'] == 'mcall' and n.get('n') == 'set_str' for n in f.N)}


def setting_loops(P, fids):
    """loops from which a value is assigned to a parameter"""
    out = set()
    for f in P.fns.values():
        for i, n in enumerate(f.N):
            if n['k'] in astu.LOOPS:
                for x in astu.walk(f.N, i):
                    m = f.N[x]
                    if m['k'] == 'mcall' and m.get('n') == 'set_str' or m.get('fid') in fids and m['k'] in ('call', 'mcall', 'opcall'):
                        out.add(id(n))
    return frozenset(out)


# ------------------------------------------------------------------ the block of settings in the file
class Block(coredrv.Hooks):
    """the function that collects the settings of a block"""

    def __init__(self, *a):
        super().__init__(*a)
        self.normal = 0

    def bad(self, rule, I, fr, n, text):
        if not I.quiet:
            self.add(rule, rule, I.where(fr, n), text)

    def on_start(self, I, st):
        st.setghost(K(0), 'ins')
        st.setghost(K(0), 'skip')
        st.setghost(K(0), 'pend')

    def skip(self, I, st):
        """is it known on this path that the line is no setting?"""
        for t, v in st.facts.items():
            if not hasattr(t, 'op'):
                continue
            c = v.const() if hasattr(v, 'const') else None
            if c == 0 and t.op == 'fn' and t.a[0] == 'b' and str(t.a[1]).strip("'") == 'has':
                return 'no line'
            if c == 1 and t.op == 'cmp' and t.a[0] == '==' and any(has_eq(x) for x in t.a[1:]):
                return 'no ='
            if c == 1 and t.op == 'cmp' and t.a[0] == '==' and any(hasattr(x, 'op') and x.op == 'fn' and x.a[0] == 'ch' for x in t.a[1:]):
                return 'another block'
        return None

    def signature(self, I, st):
        return str(st.ghost('ins')), str(st.ghost('skip')), str(st.ghost('pend'))

    def on_branch(self, I, st, fr, n, v, truth):
        if self.skip(I, st):
            st.setghost(K(1), 'skip')

    def on_loop_iter(self, I, st, fr, n):
        st.setghost(K(0), 'ins')
        st.setghost(K(0), 'skip')
        st.setghost(K(0), 'pend')

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        name = name or ''
        if re.match(r'std::(unordered_)?map::(operator\[\]|insert_or_assign|emplace|try_emplace|insert|emplace_hint)$', name) and vs:
            loc = tuple(obj) if isinstance(obj, (L, tuple)) else I.deref(st, obj)
            if n['n'] == 'insert':
                key = st.get(tuple(vs[0]) + ('first',)) if isinstance(vs[0], L) else vs[0]
            else:
                key = I.load(st, vs[0]) if isinstance(vs[0], L) else vs[0]
            f = fn('found', models.mapver(st, loc), key)
            self.site('places where a setting is recorded', I.where(fr, n)) if not I.quiet else None
            if n['n'] in ('operator[]', 'insert_or_assign'):
                if I.decide(st, f) != 0:
                    self.bad('a keyword given twice is rejected', I, fr, n, f'{self.tool} records a value for a keyword that may have been given before: the earlier value is overwritten without notice')
            else:
                st.setghost(f, 'pend')
            st.setghost(K(1), 'ins')
        return None

    def on_loop_back(self, I, st, fr, n):
        if I.quiet:
            return
        self.site('paths through the loop over the lines', (I.where(fr, n), str(st.ghost('skip'))))
        f = st.ghost('pend')
        if f is not None and f.op == 'fn' and I.decide(st, f) != 0:
            self.bad('a keyword given twice is rejected', I, fr, n, f'{self.tool} continues with the next line although the value was not recorded because the keyword had been given before')
        if st.ghost('ins') != K(1) and st.ghost('skip') != K(1):
            self.bad('every line with a setting is recorded', I, fr, n, f'{self.tool} continues with the next line although a line that may hold a setting was not recorded')

    def live_terms(self, I, st):
        f = st.ghost('pend')
        return [f] if f is not None else []

    def on_exit(self, I, st, status, fr, n, kind):
        self.normal += kind == 'return'


def has_eq(t):
    return hasattr(t, 'op') and t.op == 'fn' and str(t.a[0]).startswith('find') and any(hasattr(x, 'op') and (x.op == 's' and x.a[0] == '=' or x is K(61)) for x in t.a[1:])


class NoBlock(coredrv.Hooks):
    def __init__(self, *a):
        super().__init__(*a)
        self.normal = 0

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        if n.get('n') == 'find_block':
            if not I.quiet:
                self.site('searches for the block', I.where(fr, n))
            return [(st, K(0))]
        return None

    def on_exit(self, I, st, status, fr, n, kind):
        self.normal += kind == 'return'


class SetStr(coredrv.Hooks):
    """the assignment of one value"""

    def bad(self, rule, I, fr, n, text):
        if not I.quiet:
            self.add(rule, rule, I.where(fr, n), text)

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        if n.get('n') == 'from_string' and vs:
            t = I.load(st, vs[0]) if isinstance(vs[0], L) else vs[0]
            if isinstance(vs[0], L) and tuple(vs[0])[0][0] == 'root' or mentions(t, (('root', self.par),)):
                st.setghost(K(1), 'converted')
        return None

    def on_assign_data(self, I, st):
        pass

    def on_exit(self, I, st, status, fr, n, kind):
        if kind != 'return':
            return
        self.site('ends of the assignment functions', self.tool)
        v = I.load(st, L(THIS + ('data',)))
        if st.ghost('converted') != K(1) or v.op == 'init':
            self.bad('the value is converted and stored', I, fr, n, f'{self.tool} returns without having stored the converted value')


def body(rep):
    rep.rules = ['the keywords of the parameters in one container are different from each other',
                 'while parameters are set from the input no parameter is passed over whose keyword the input contains, the value assigned is the one under its keyword, and a pending value is removed only after it was assigned',
                 'the constructor returns only after it has written every keyword and value that no parameter has taken',
                 'a keyword that was given before is never overwritten or dropped without an exception; every line with an equals sign is recorded until the next block starts; a missing block is an exception',
                 'with an inconsistent setting (assumed from the moment the values are assigned) the constructor has no normal return',
                 'the constructors that read the data file have no normal return if the number of sites is 0 or not larger than the index of the first step']
    P = coredrv.core_prog()
    # ---- keywords
    groups = {}
    for c in P.classes.values():
        ps = allparams(P, c)
        for nm, ss, m, l in ps:
            rep.count('parameters')
            if not ss:
                rep.add(f'keyword:{c["q"] if "q" in c else c.get("n")}:{nm}', rep.rules[0], f'c++/params.hpp:{l}', f'the keyword of the parameter {nm} is not written in its declaration')
                continue
            groups.setdefault((c.get('n') or c.get('q'), ss[0]), []).append((nm, m))
    for (cn, kw), ms in sorted(groups.items(), key=str):
        rep.count('keywords')
        if len(ms) > 1:
            where = f'{ms[1][1].get("file", "c++/params.hpp")}:{ms[1][1].get("l", 0)}'
            rep.add(f'duplicate:{kw}', 'keywords are unique', where, f'the parameters {" and ".join(n for n, _ in ms)} of {cn} have the same keyword {kw!r}')
    # ---- assignment of the values
    st = setters(P)
    A = C06.prepare(P)
    via = A['up'](st)
    ctors = [f for f in P.fns.values() if f.kind == 'ctor' and f.fid in via and f.d.get('cls', '').endswith('Params') and f.file.startswith('c++')]
    sl = setting_loops(P, via)

    def opaque(f):
        return f.kind == 'ctor' and re.match(r'(NRG::)?param(base)?\b', f.d.get('cls', '')) or not f.file.startswith('c++') or any('istream' in p['t'] for p in f.params) or f.fid in A['loops'] and f.fid not in via and (
            'map<' in f.d.get('ret', '') or len(f.N) > 1500 or not any('map<' in p['t'] or 'map<' in str(n.get('t', '')) for p in f.params for n in f.N) and f.d.get('cls', '') == '')
    for f in ctors:
        rep.count('constructors that read parameters')
        cls = next(c for k, c in P.classes.items() if c.get('n') == f.d['cls'] or k == f.d['cls'] or c.get('q') == f.d['cls'])
        fl = {m['n'] for m in cls['fields']}
        h, I = interp(P, f, Assign, {}, (), THIS, opaque, sl, f.q)
        coredrv.merge(rep, h)
        if not h.normal:
            rep.broken.append(f'{f.q} has no normal return')
        for text, vals, cons in settings(I, fl):
            if vals is None:
                rep.add(f'setting:{text}', rep.rules[4], f'{f.file}:{f.line}', f'the setting ({text}) cannot be checked: the parameter is missing')
                continue
            rep.count('inconsistent settings tried')
            h, I = interp(P, f, Assign, {(n, 'data'): v for n, v in vals.items()}, cons, THIS, opaque, sl, f.q)
            if h.normal:
                rep.add(f'setting:{text}', 'inconsistent settings are rejected', f'{f.file}:{f.line}', f'{f.q} returns normally although {text}')
    # ---- the number of sites
    N, N0 = fresh('Nmax', 0, None, False, True), fresh('Ninit', 0, None, False, True)
    for f in P.fns.values():
        if f.kind != 'ctor' or not f.d.get('cls', '').split('<')[0].endswith('InputData') or not any('Params' in p['t'] for p in f.params):
            continue
        par = next(p['n'] for p in f.params if 'Params' in p['t'])
        for text, pins, cons in (('Nmax = 0', {('Nmax',): K(0)}, ()), ('Nmax <= Ninit', {('Nmax',): N, ('Ninit', 'data'): N0}, [('<=', N, N0, 'i')])):
            h, I = interp(P, f, Ends, pins, cons, (('root', par),), lambda g: len(g.N) > 1500 or g.fid in A['loops'] and not any(re.search(r'(^|[ :])Params &$', p['t']) and not p['t'].startswith('const') for p in g.params) and not g.d.get('cls', '').endswith('Params'), (), f.q, early=('Ninit',))
            rep.count('constructors that read the data file')
            if h.normal:
                rep.add(f'sites:{text}', 'inconsistent settings are rejected', f'{f.file}:{f.line}', f'{f.q} returns normally although {text}')
    # ---- the block of settings
    for f in P.fns.values():
        if f.file.startswith('c++') and 'map<' in f.d.get('ret', '') and any('istream' in p['t'] for p in f.params) and absint.strip_t(f.d['ret']).count('basic_string') >= 2:
            h = Block(f.q)
            I = Interp(P, h, libthrow=False)
            I.opaque = lambda g: g.fid in A['loops'] and not any('map<' in p['t'] for p in g.params)
            h.I = I
            I.run_function(f)
            coredrv.merge(rep, h)
            rep.count('functions that read a block of settings')
        if f.file.startswith('c++') and any(n['k'] == 'call' and n.get('n') == 'find_block' for n in f.N) and 'map<' in f.d.get('ret', ''):
            h = NoBlock(f.q)
            I = Interp(P, h, libthrow=False)
            I.opaque = lambda g: g.fid in A['loops']
            h.I = I
            I.run_function(f)
            coredrv.merge(rep, h)
            if h.normal:
                rep.add(f'block:{f.q}', 'a missing block is an exception', f'{f.file}:{f.line}', f'{f.q} returns normally although the block was not found')
    # ---- the assignment of one value
    for f in P.fns.values():
        if f.n == 'set_str' and f.kind == 'method' and f.N:
            h = SetStr(f.q)
            h.par = f.params[0]['n']
            I = Interp(P, h, libthrow=False)
            h.I = I
            I.run_function(f)
            coredrv.merge(rep, h)
    rep.need('parameters', 50)
    rep.need('constructors that read parameters', 1)
    rep.need('constructors that read the data file', 1)
    rep.need('functions that read a block of settings', 1)
    rep.need('assignments of a value from the input', 1)
    return ('The declarations of the parameters, the constructor that reads the parameter file (once without assumption and once for each inconsistent setting), the constructors that read the data file '
            'and the functions that read a block of settings are interpreted over all inputs.')


class Ends(Assign):
    def on_exit(self, I, st, status, fr, n, kind):
        self.normal += kind == 'return'


if __name__ == '__main__':
    common.run('C10', body)
