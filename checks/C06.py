"""C06: every named choice is dispatched or rejected."""
import glob
import os
import re

import astu
import common
import coredrv
import absint
from terms import K, S, fresh, isnum, mk, Iv
from absint import L, OBJ, NOVAL, strip_t

CH = fresh('the choice')
STRING = re.compile(r'^(const )?std::(basic_)?string(_view)?\b')
SMALL = 1500
TABLE = '(a table)'
MODE = [None, None]          # what is chosen (field or parameter name), value (None: none of the known names)


def has(t, x=CH, memo={}):
    if t is x:
        return True
    if not hasattr(t, 'a'):
        return False
    r = memo.get(t.id)
    if r is None:
        memo[t.id] = r = any(has(y) if hasattr(y, 'op') else False for y in t.a) or t.op == 'init' and match(t.a[0])
    return r


def match(loc):
    f = MODE[0]
    return f is not None and isinstance(loc, tuple) and loc and (loc[-1] == f or len(loc) > 1 and loc[-2] == f and isinstance(loc[-1], str) and not loc[-1].startswith('#'))


class Interp(coredrv.CoreInterp):
    subjects = ()

    def fresh_of(self, t, label):
        if not self.started and label == self.par:
            return CH
        return super().fresh_of(t, label)

    def load(self, st, v, fr=None, n=None):
        if isinstance(v, L) and match(tuple(v)):
            return CH
        return super().load(st, v, fr, n)

    def store(self, st, loc, val):
        if MODE[0] is not None and match(loc):
            return
        if self.par is not None and has(val) and isinstance(loc[-1], str):
            self.assigned.add(loc[-2] if len(loc) > 1 and isinstance(loc[-2], str) else loc[-1])
        super().store(st, loc, val)

    def cmpterm(self, op, a, b, isf):
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if has(x) and (isf == 's' or y.op == 's') and y.op == 's':
                    self.lits.add(y.a[0])
                    r = MODE[1] is not None and y.a[0] == MODE[1]
                    return K(int(r == (op == '==')))
                if x.op == 'fn' and x.a[0] == 'find_first_not_of' and has(x.a[1]):
                    cs = [z.a[0] for z in x.a[2:] if getattr(z, 'op', '') == 's']
                    if cs:
                        r = MODE[1] is None or any(c not in cs[0] for c in MODE[1])
                        return K(int(r == (op == '!=')))
        return super().cmpterm(op, a, b, isf)

    def decide(self, st, t):
        if t.op == 'fn' and t.a[0] == 'found' and MODE[1] is None and has(t):
            self.lits.add(TABLE)
            return 0
        if t.op == 'cmp' and isnum(t.a[2]) and t.a[1].op == 'fn' and t.a[1].a[0] == 'found' and MODE[1] is None and has(t.a[1]):
            self.lits.add(TABLE)
            return int({'==': t.a[2].a[0] == 0, '<': 0 < t.a[2].a[0], '<=': 0 <= t.a[2].a[0]}[t.a[0]])
        return super().decide(st, t)

    def iv(self, st, t, *a):
        if t.op == 'fn' and t.a[0] == 'found' and MODE[1] is None and has(t):
            self.lits.add(TABLE)
            return Iv(0, 0, isint=True)
        return super().iv(st, t, *a)

    def itcmp(self, st, op, x, y):
        if op == '==' and x.op == 'it' and y.op == 'it' and MODE[1] is None and (has(x) or has(y)) and 'end' in (x.a[1], y.a[1]):
            self.lits.add(TABLE)
            return K(1)
        return super().itcmp(st, op, x, y)

    def inline(self, f, st, fr, i, n, vs, this=None, **kw):
        self.started = True
        if not self.quiet:
            self.called.add(f.n)
        if fr is None or f.fid in self.subjects or f.n == 'operator()' or f.fid not in self.loops and len(f.N) < SMALL and f.file.startswith('c++'):
            return super().inline(f, st, fr, i, n, vs, this=this, **kw)
        for p, v in zip(f.params, vs):
            if '&' in p['t'] and not p['t'].startswith('const') and isinstance(v, L):
                self.havoc(st, tuple(v))
        if f.kind == 'ctor':
            if this is not None:
                self.havoc(st, this)
            return [(st, NOVAL)]
        t = f.d['ret']
        if self.kind(t) in OBJ and '*' not in t:
            loc = self.tmp(fr, i)
            st.kill(loc)
            return [(st, L(loc))]
        if strip_t(t) == 'void':
            return [(st, NOVAL)]
        return [(st, self.fresh_of(t, f.n))]


class H(coredrv.Hooks):
    def on_start(self, I, st):
        if I.par is not None:
            st.put((('root', I.par),), CH)

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        if not I.quiet and n.get('n'):
            I.called.add(n['n'])
        fnn = name or ''
        if MODE[1] is None and MODE[0] is not None or I.par is not None and MODE[1] is None:
            key = next((v for v in vs if not isinstance(v, L) and v is not None and has(v) or isinstance(v, L) and not (I.kind((n.get('pt') or [''])[-1]) in OBJ) and has(I.load(st, v))), None)
            if key is not None and re.match(r'std::(unordered_)?map::at', fnn):
                I.lits.add(TABLE)
                I.throw(st, 'std::out_of_range', fr, n)
                return []
            if key is not None and fnn in ('std::find', 'std::ranges::find'):
                # among the listed names there is none that equals it
                return [(st, mk('it', mk('found', key), 'end'))]
        return None

    def on_exit(self, I, st, status, fr, n, kind):
        if kind == 'return':
            self.normal += 1
        elif kind == 'throw':
            self.rejected += 1
        else:
            iv = I.iv(st, status) if status is not None and not isinstance(status, (str, L)) else None
            if iv is not None and iv.lo <= 0 <= iv.hi:
                self.normal += 1
            else:
                self.rejected += 1


def attempt(P, A, f, par, field, value):
    MODE[0], MODE[1] = field, value
    has.__defaults__[1].clear()
    h = H(f.q)
    h.normal = h.rejected = 0
    I = Interp(P, h, libthrow=False)
    I.par, I.lits, I.called, I.assigned, I.started = par, set(), set(), set(), False
    I.loops, I.subjects = A['loops'], A['subjects']
    h.I = I
    try:
        I.run_function(f)
    except absint.AnalysisBroken:
        return {'normal': 1, 'rejected': 0, 'lits': set(), 'called': set(), 'assigned': set(), 'steps': 0, 'broken': True}
    finally:
        MODE[0] = MODE[1] = None
    return {'normal': h.normal, 'rejected': h.rejected, 'lits': I.lits, 'called': I.called, 'assigned': I.assigned, 'steps': I.steps}


def prepare(P):
    callers = {}
    for f in P.fns.values():
        for g in coredrv.calls(P, f):
            callers.setdefault(g.fid, set()).add(f.fid)

    def up(fids):
        r, todo = set(), list(fids)
        while todo:
            x = todo.pop()
            if x not in r:
                r.add(x)
                todo += callers.get(x, ())
        return r
    return {'callers': callers, 'up': up, 'loops': up(f.fid for f in P.fns.values() if any(n['k'] in astu.LOOPS for n in f.N)), 'subjects': set()}


def literals(f):
    return {n['v'] for n in f.N if n['k'] == 'str' and n.get('v') and len(n['v']) < 40}


def fields(P):
    """configuration parameters that hold a name"""
    out = {}
    for c in P.classes.values():
        for m in c.get('fields', c.get('members', [])):
            if re.search(r'param<std::(basic_)?string', m['t']):
                out[m['n']] = m
    return out


def compares(f, name):
    """does the text of the function compare the named thing with a string?  (a cheap filter, decided by interpretation later)"""
    return any(n['k'] in ('mem', 'ref') and (n.get('m') == name or n.get('n') == name) for n in f.N)


def subjects(P, fl, keep):
    """(function, parameter index or None, field or None) that may compare a configuration name, a cheap filter; virtual functions that take a name always"""
    for f in P.fns.values():
        if not f.file.startswith('c++') or f.file.endswith('openmp.hpp') or not keep(f):
            continue
        lit = literals(f)
        for x in fl:
            if lit and any(n['k'] == 'mem' and n.get('m') == x for n in f.N):
                yield f, None, x
        for j, p in enumerate(f.params):
            if STRING.match(p['t']) and p['n'] and (f.d.get('virt') and f.kind == 'method' or lit and any(n['k'] == 'ref' and n.get('n') == p['n'] for n in f.N)):
                yield f, j, None


def attempts(P, keep=lambda f: True, values=True):
    """interpret every function that compares a configuration name or a string parameter, once with a name that is none of the known ones"""
    A = prepare(P)
    fl = fields(P)
    defaults, docs = described(P)
    done = []
    for f, j, x in subjects(P, fl, keep):
        par = f.params[j]['n'] if j is not None else None
        r = attempt(P, A, f, par, x, None)
        lits = {l for l in r['lits'] if l}
        virt = bool(f.d.get('virt')) and j is not None
        if not lits and not virt:
            continue
        e = {'fid': f.fid, 'q': f.q, 'n': f.n, 'j': j, 'x': x, 'file': f.file, 'line': f.line, 'lits': lits, 'rejects': r['rejected'] > 0 and r['normal'] == 0, 'normal': r['normal'] > 0,
             'assigned': r['assigned'], 'virt': virt, 'ret': f.d.get('ret', ''), 'cls': f.d.get('cls'), 'vals': {}, 'steps': r['steps'], 'sig': f.q + '(' + ','.join(p['t'] for p in f.params) + ')',
             'broken': bool(r.get('broken'))}
        if values and not virt:
            for v in sorted(lits | ({defaults[x]} if x in defaults else set())):
                a = attempt(P, A, f, par, x, v)
                e['vals'][v] = {'normal': a['normal'] > 0, 'called': sorted(a['called']), 'broken': bool(a.get('broken'))}
                e['steps'] += a['steps']
        done.append(e)
    return done


def symmetry_unit(src):
    """the same for one symmetry type: members of the symmetry classes and the matrix products it instantiates"""
    P = absint.Prog(common.extract(src, common.CFLAGS, ['c++'], 'sym_' + os.path.basename(src)[:-3], maxnodes=4000))
    out = attempts(P, keep=lambda f: 'symmetry' in f.file or 'sym-' in f.file or 'recalc-' in f.file or f.file.endswith('numerics.hpp'), values=False)
    return src, len(P.fns), sorted({f.n for f in P.all}), out


def described(P):
    """default value and documented names of each configuration name, from its initialiser"""
    defaults, docs = {}, {}
    for c in P.classes.values():
        for m in c.get('fields', []):
            if not re.search(r'param<std::(basic_)?string', m['t']):
                continue
            ss = init_strings(c, m)
            if len(ss) >= 3:
                defaults[m['n']] = ss[2]
                d = re.search(r'\(([\w-]+(?:\|[\w-]+)+)\)', ss[1])
                docs[m['n']] = d.group(1).split('|') if d else []
    return defaults, docs


def init_strings(c, m):
    out = []
    N = c.get('nodes', [])

    def walk(i):
        if not isinstance(i, int) or i < 0 or i >= len(N):
            return
        n = N[i]
        if n['k'] == 'str':
            out.append(n.get('v', ''))
            return
        if n['k'] in ('ctor', 'ilist', 'mcall', 'call') and n['k'] == 'ctor' and n.get('cls', '').startswith('std::basic_string') and not n.get('c'):
            out.append('')
            return
        for x in n.get('c', []):
            walk(x)
    walk(m.get('initn', -1))
    return out


def source(P, f, i):
    """where the i-th node of f (an argument) comes from: ('lit', text), ('field', name), ('par', index) or None"""
    N = f.N
    seen = 0
    while isinstance(i, int) and 0 <= i < len(N) and seen < 20:
        seen += 1
        n = N[i]
        k = n['k']
        if k == 'str':
            return 'lit', n.get('v', '')
        if k == 'mem':
            return 'field', n.get('m')
        if k == 'ref':
            for j, p in enumerate(f.params):
                if p.get('id') == n.get('d'):
                    return 'par', j
            vs = [v for m in N if m['k'] == 'decl' for v in m.get('vars', []) if v.get('id') == n.get('d') and v.get('init') is not None]
            if not vs:
                return None
            i = vs[0]['init']
            continue
        c = [x for x in n.get('c', []) if isinstance(x, int) and x >= 0]
        if k in ('mcall', 'ctor', 'cast', 'opcall', 'call', 'ilist', 'paren', 'mat', 'bind') and c:
            i = c[0]
            continue
        return None
    return None


def args(n):
    return n['c'][1:] if n['k'] == 'mcall' else n['c']


def callsites(P, q, virtn=None):
    for f in P.fns.values():
        if not f.file.startswith('c++'):
            continue
        for n in f.N:
            if n['k'] in ('call', 'mcall') and (n.get('fn') == q or virtn and n['k'] == 'mcall' and n.get('n') == virtn):
                yield f, n


def body(rep):
    rep.rules = ['each configuration parameter that is compared with names is rejected by some function of the calculation if its value is none of the names: that function, given such a value, has no normal return',
                 'a function with a name parameter that accepts anything is only called with names written in the program, with parameters that are rejected elsewhere, or with such parameters of its caller',
                 'every member of a family of virtual functions that takes a name rejects the names it does not know',
                 'the default value and the documented values are accepted; a name with an implementation of the same name selects that implementation and no other',
                 'a switch over a character read from the configuration or the data file rejects what it does not list']
    P = coredrv.core_prog()
    defaults, docs = described(P)
    es = attempts(P)
    units = sorted(os.path.relpath(p, common.REPO) for p in glob.glob(os.path.join(common.REPO, 'c++', 'sym-*.cc')))
    names = {f.n for f in P.all}
    for src, n, nm, out in common.parallel(symmetry_unit, units) if units else []:
        rep.count('symmetry types analysed')
        rep.count('functions of the symmetry types', n)
        names |= set(nm)
        for e in out:
            e['unit'] = src
        es += out
    rep.count('functions of the solver', len(P.fns))
    ded = {}
    for e in es:
        ded.setdefault((e['sig'], e['j'], e['x'], e['file'], e['line']), e)
    es = list(ded.values())
    compared = {(e['n'], e['j']) for e in es if e['virt'] and e['lits']}
    es = [e for e in es if e['lits'] or (e['n'], e['j']) in compared]
    for e in es:
        rep.count('functions that compare names')
        rep.count('names compared', len(e['lits']))
        rep.count('abstract steps', e['steps'])
        if e['broken']:
            rep.count('functions too complex to decide')
    entry = {f.fid for f in P.fns.values() if f.file == coredrv.CORE}
    A = prepare(P)

    def used(e):
        return 'unit' in e or bool(A['up']([e['fid']]) & entry)
    # ---- functions with a name parameter
    rejecting = {}
    for e in es:
        if e['j'] is not None:
            k = (e['n'] if e['virt'] else e['q'], e['j'])
            rejecting[k] = rejecting.get(k, True) and e['rejects']
    # ---- fields
    fl = sorted({e['x'] for e in es if e['x']})
    ok = {}
    for x in fl:
        by = [e for e in es if e['x'] == x and e['rejects'] and used(e)]
        for e in es:
            if e['j'] is not None and e['rejects'] and x in e['assigned'] and used(e):
                by.append(e)
        for (n, j), r in rejecting.items():
            if r:
                e0 = next(e for e in es if e['j'] == j and n in (e['q'], e['n']))
                for f, c in callsites(P, e0['q'], e0['n'] if e0['virt'] else None):
                    a = args(c)
                    if j < len(a) and source(P, f, a[j]) == ('field', x):
                        by.append(e0)
        ok[x] = by
    exempt = {'tri'}
    for x in fl:
        cmp = [e for e in es if e['x'] == x]
        rep.count('configuration names')
        rep.details[x] = {'compared in': sorted({f"{e['q']} ({e['file']}:{e['line']})" for e in cmp}), 'names': sorted(set().union(*[e['lits'] for e in cmp])), 'rejected by': sorted({e['q'] for e in ok[x]})}
        if x in exempt:
            rep.details[x]['note'] = 'any other value is documented to select external tools'
            continue
        if not ok[x]:
            e = cmp[0]
            rep.add(f'reject:{x}', 'an unknown name is rejected', f"{e['file']}:{e['line']}", f'no function of the calculation rejects an unknown value of the parameter {x}; it is compared in {", ".join(sorted({c["q"] for c in cmp}))}')
        if x in defaults:
            for e in cmp:
                v = e['vals'].get(defaults[x])
                if v is not None and e['rejects'] and not v['normal'] and not v['broken']:
                    rep.add(f'default:{x}:{e["q"]}', 'the default is accepted', f"{e['file']}:{e['line']}", f'{e["q"]} rejects the default value {defaults[x]!r} of {x}')
        known = set().union(*[e['lits'] for e in ok[x]]) if ok[x] else set()
        for v in docs.get(x, []):
            rep.count('documented names')
            if ok[x] and v not in known:
                rep.add(f'documented:{x}:{v}', 'documented names are known', f"{ok[x][0]['file']}:{ok[x][0]['line']}", f'the documented value {v!r} of the parameter {x} is known to none of {", ".join(sorted({e["q"] for e in ok[x]}))}')
    # ---- functions that accept any name
    for e in es:
        if e['j'] is None:
            continue
        rep.count('functions with a name parameter')
        if not e['normal'] or predicate(P, e):
            continue
        why = lenient(P, e, ok, exempt, es, set())
        if why:
            rep.add(f'accepts:{e["q"]}', 'an unknown name is rejected', f"{e['file']}:{e['line']}", f'{e["q"]} returns normally for a name that it does not know, and {why}')
    # ---- families
    for n, j in sorted(compared):
        fam = [e for e in es if e['virt'] and e['n'] == n and e['j'] == j]
        rep.count('families of virtual functions')
        rep.count('members of families', len(fam))
        if any(e['rejects'] for e in fam):
            for e in fam:
                if e['normal'] and not e['broken']:
                    rep.add(f'family:{e["q"]}', 'an unknown name is rejected', f"{e['file']}:{e['line']}", f'{e["q"]} returns normally for a name that it does not know; other members of the family reject it')
    # ---- implementations named like the choice
    for e in es:
        for v, r in e['vals'].items():
            if not r['normal'] or not v:
                continue
            for c in r['called']:
                for u in sorted(e['lits']):
                    if u != v and c.endswith('_' + u) and (p := c[:-len(u)]) and (u not in e['vals'] or True):
                        own = p + v
                        if own in names and own not in r['called'] and not (c.endswith('_' + v)):
                            rep.add(f'select:{e["q"]}:{v}', 'a name selects its own implementation', f"{e['file']}:{e['line']}", f'{e["q"]} calls {c} for the name {v!r}, not {own}')
            rep.count('dispatched names', any(c.endswith('_' + v) for c in r['called']))
    # ---- an implementation that no name selects
    for e in es:
        pre = {c[:-len(v)] for v, r in e['vals'].items() for c in r['called'] if v and c.endswith('_' + v)}
        for p in sorted(pre):
            sel = {n.get('n') or '' for g in P.byq.get(e['q'], []) for n in g.N if n['k'] in ('ref', 'call')}
            sel |= {c for f in es if f['q'] == e['q'] for r in f['vals'].values() for c in r['called']}
            if len([c for c in sel if c.startswith(p)]) < 4:
                continue
            for own in sorted(names):
                if own.startswith(p) and own not in sel:
                    rep.add(f'unselected:{own}', 'a name selects its own implementation', f"{e['file']}:{e['line']}", f'{own} is selected by no name in {e["q"]}')
    switches(rep, P)
    rep.need('configuration names', 4)
    rep.need('functions that compare names', 20)
    rep.need('symmetry types analysed', 10)
    return ('Each function of the solver and of the symmetry types that compares a configuration name (or a string parameter) with a name written in the program is interpreted with a name that is none of those: '
            'it rejects the name if no path returns normally. ' + ', '.join(f'{x}: {", ".join(sorted({e["q"] for e in ok[x]})) or "-"}' for x in fl))


def predicate(P, e):
    """a question (is it this name?), not a choice"""
    f = P.fns.get(e['fid']) if 'unit' not in e else None
    return f is not None and e['ret'] in ('bool', 'const bool') and sum(n['k'] == 'return' for n in f.N) <= 1 and not any(n['k'] == 'throw' for n in f.N)


def lenient(P, e, ok, exempt, es, seen):
    """a call that may pass an unchecked name -> description, or None"""
    if 'unit' in e and e['fid'] not in P.fns:
        pass
    key = (e['q'], e['j'])
    if key in seen or len(seen) > 12:
        return None
    seen.add(key)
    for f, n in callsites(P, e['q'], e['n'] if e['virt'] else None):
        a = args(n)
        if e['j'] >= len(a):
            continue
        s = source(P, f, a[e['j']])
        at = f'{f.file}:{n["l"]}'
        if s is None:
            if e['virt']:
                return f'the call in {f.q} ({at}) passes a name read from elsewhere'
            continue
        if s[0] == 'lit':
            continue
        if s[0] == 'field':
            if s[1] in ok and not ok[s[1]] and s[1] not in exempt:
                return f'the call in {f.q} ({at}) passes the parameter {s[1]}, which nothing else rejects'
            continue
        p = {'q': f.q, 'n': f.n, 'j': s[1], 'virt': bool(f.d.get('virt')), 'fid': f.fid}
        if any(x['q'] == f.q and x['j'] == s[1] and x['rejects'] for x in es):
            continue
        w = lenient(P, p, ok, exempt, es, seen)
        if w:
            return w
    return None


def rest(f, i, d):
    """nodes of the default case and of what follows it in the switch"""
    yield from astu.walk(f.N, d)
    for b in astu.walk(f.N, i):
        if f.N[b]['k'] == 'block' and d in f.N[b].get('c', []):
            c = f.N[b]['c']
            for x in c[c.index(d) + 1:]:
                if f.N[x]['k'] in ('case', 'break'):
                    break
                yield from astu.walk(f.N, x)


def rejects(P, f, x):
    n = f.N[x]
    if n['k'] == 'throw' or n.get('noret'):
        return True
    g = P.fns.get(n.get('fid')) if n['k'] in ('call', 'mcall') else None
    return g is not None and any(m['k'] == 'throw' or m.get('noret') for m in g.N)


def switches(rep, P):
    """switch over a character"""
    for f in P.fns.values():
        if not f.file.startswith('c++') or f.file.endswith('openmp.hpp'):
            continue
        for i, n in enumerate(f.N):
            if n['k'] != 'switch':
                continue
            c = n['c'][0]
            t = f.N[c].get('t', '') if isinstance(c, int) and c >= 0 else ''
            sub = list(astu.walk(f.N, c))
            if not any(f.N[x].get('t', '') in ('char', 'const char') for x in sub):
                continue
            rep.count('switches over a character')
            d = [x for x in astu.walk(f.N, i) if f.N[x]['k'] == 'default']
            if not d:
                rep.add(f'switch:{f.q}', 'an unlisted character is rejected', f'{f.file}:{n["l"]}', f'the switch in {f.q} has no default case')
            elif not any(rejects(P, f, x) for x in rest(f, i, d[-1])):
                rep.add(f'switch:{f.q}', 'an unlisted character is rejected', f'{f.file}:{f.N[d[-1]]["l"]}', f'the default case of the switch in {f.q} neither throws nor ends the program')


if __name__ == '__main__':
    common.run('C06', body)
