"""T11: a keyword that both the grid solver and the chain generator understand has the same default, conversion and accepted range in both; documented keywords
are the ones that are looked up."""
import re

import common
import absint
import astu
import coredrv
import effects
import models
from absint import L, K, S, OBJ, fresh, strip_t
from tooldrv import Hooks

INF = float('inf')

TOOLS = ('adapt', 'nrgchain')
# keywords named by the sample parameter files and by the comments that describe the settings
DOC = {'adapt': ['Lambda', 'adapt', 'dos', 'xmax', 'xfine', 'outputstep', 'dx_fine', 'dx_fast', 'allowed_error', 'max_subdiv', 'secant_eps', 'secant_max_iter',
                 'secant_factor', 'bandrescale', 'max_abs', 'hardgap', 'boundary', 'loadg'],
       'nrgchain': ['Lambda', 'adapt', 'dos', 'xmax', 'mMAX', 'Nmax', 'z', 'bandrescale', 'rescalexi', 'preccpp', 'band', 'nrgchain_tables_save', 'nrgchain_tables_load',
                    'nrgchain_tridiag']}
FAMILY = {'atof': 'real', 'strtod': 'real', 'strtof': 'real', 'stod': 'real, throws', 'stof': 'real, throws', 'atoi': 'integer', 'strtol': 'integer', 'atol': 'integer',
          'stoi': 'integer, throws', 'stol': 'integer, throws', 'from_chars': 'from_chars'}
LIMIT = 6000


def strmap(t):
    t = strip_t(t or '')
    return bool(re.match(r'^std::(unordered_)?map<std::(basic_string<char>|string), ?std::(basic_string<char>|string)', t))


def peel(N, i):
    """the declaration an argument refers to, looking through conversions and copies"""
    while True:
        n = N[i]
        if n['k'] in ('ref', 'var') or n.get('dk'):
            return n
        if n['k'] in ('cast', 'icast', 'paren', 'cleanups', 'ctor', 'temp', 'mat', 'bindtemp') and len(n.get('c', [])) == 1:
            i = n['c'][0]
            continue
        return n


def literal(N, i):
    for x in astu.walk(N, i):
        if N[x]['k'] == 'str':
            return N[x].get('v')
    return None


def accessors(P):
    """{fid: index of the parameter that is the keyword}, [(function, lookup node)] for lookups with other keys"""
    acc, base = {}, {}
    sites = []
    ismap = lambda f, n: n['k'] in ('mcall', 'opcall') and n.get('cls') in ('std::map', 'std::unordered_map') and n.get('n') in ('find', 'at', 'count', 'contains', 'operator[]')
    for r in range(4):
        sites = []
        for f in P.fns.values():
            ids = {p.get('id', p.get('d')): k for k, p in enumerate(f.params)}
            for i, n in enumerate(f.N):
                a = None
                if ismap(f, n):
                    ty = f.N[n['c'][0]].get('t', '').replace('*', '').strip()
                    if strmap(ty) or strmap(f.N[n['c'][0]].get('ct', '')) or any(strmap(b['t']) for b in (P.classes.get(strip_t(ty)) or {'bases': []})['bases']):
                        a = n['c'][-1] if len(n['c']) > 1 else None
                elif n['k'] in ('call', 'mcall') and n.get('fid') in acc:
                    k = acc[n['fid']]
                    args = n['c'][1:] if n['k'] == 'mcall' else n['c']
                    a = args[k] if k < len(args) else None
                if a is None:
                    continue
                d = peel(f.N, a)
                if d.get('d') in ids and f.fid not in acc:
                    acc[f.fid] = ids[d['d']]
                    if ismap(f, n):
                        base[f.fid] = ids[d['d']]
                elif d.get('d') not in ids:
                    sites.append((f, i, literal(f.N, a)))
    return acc, base, sites


def compared(f, out):
    """string literals that f compares something with"""
    for n in f.N:
        if n.get('n') in ('operator==', 'operator!=', 'compare', 'strcmp', 'operator<=>') or n.get('op') in ('==', '!=', '<=>'):
            for c in n.get('c', []):
                v = literal(f.N, c)
                if v is not None:
                    out.add(v)


def conversion(P, f):
    fam, lit = set(), set()
    for g in coredrv.reach(P, [f]).values():
        for n in g.N:
            if n['k'] in ('call', 'mcall') and n.get('fid') not in P.fns and n.get('n') in FAMILY:
                fam.add(FAMILY[n['n']])
        compared(g, lit)
    # lambdas handed down
    for g in list(coredrv.reach(P, [f]).values()):
        for n in g.N:
            if n['k'] == 'lambda':
                for h in P.fns.values():
                    if h.kind == 'lambda' and (h.fid == n.get('fid') or h.pk and h.pk == n.get('pk')):
                        for m in h.N:
                            if m['k'] in ('call', 'mcall', 'opcall'):
                                if m.get('n') in FAMILY:
                                    fam.add(FAMILY[m['n']])
                            compared(h, lit)
    return frozenset(fam), frozenset(x for x in lit if x is not None)


class H(Hooks):
    def __init__(self, tool):
        super().__init__(tool)
        self.terms = {}
        self.defaults = {}
        self.defloc = {}

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        fid = n.get('fid')
        if fid not in self.acc:
            return None
        k = self.acc[fid]
        f = I.prog.fns[fid]
        key = I.load(st, vs[k]) if isinstance(vs[k], L) else vs[k]
        if key is None or key.op != 's':
            return None
        rest = [v for j, v in enumerate(vs) if j != k and not (isinstance(v, L) and I.kind(f.params[j]['t']) in OBJ and self.ismapty(I.prog, f.params[j]['t']))]
        d = None
        if rest:
            d = I.load(st, rest[0]) if isinstance(rest[0], L) else rest[0]
        kw = key.a[0]
        self.defaults.setdefault(kw, set()).add(d)
        self.defloc.setdefault(kw, I.where(fr, n))
        self.accof.setdefault(kw, f)
        rt = strip_t(f.d.get('ret', ''))
        t = self.terms.get(kw)
        if t is None:
            t = self.terms[kw] = I.fresh_of(rt, 'kw:' + kw)
        return [(st, t)]

    def ismapty(self, P, t):
        t = strip_t(t)
        return strmap(t) or any(strmap(b['t']) for b in (P.classes.get(t) or {'bases': []})['bases'])

    def live_terms(self, I, st):
        return list(self.terms.values())

    def on_exit(self, I, st, v, fr, n, kind):
        if kind == 'return' and not I.quiet:
            self.ends.append(st)


def size(P, f):
    return sum(len(g.N) for g in coredrv.reach(P, [f]).values())


def run(P, f, acc, tool):
    h = H(tool)
    h.acc, h.ends, h.accof = acc, [], {}
    I = coredrv.CoreInterp(P, h)
    I.effects = effects.Effects(P)
    h.I = I
    I.run_function(f)
    return h, I


def analyse(tool):
    P = common.tool_prog(tool)
    acc, base, sites = accessors(P)
    callers = {}
    for f in P.fns.values():
        for c in coredrv.calls(P, f):
            callers.setdefault(c.fid, {})[f.fid] = f
    todo = {}
    looked = {}
    for f, i, lit in sites:
        if lit is not None:
            looked.setdefault(lit, f'{f.file}:{f.N[i].get("l")}')
        if f.fid in acc:
            continue
        todo[f.fid] = f
        g = f
        for _ in range(4):  # the enclosing set-up functions, as long as they are small
            cs = [c for c in callers.get(g.fid, {}).values() if c.n != 'main']
            if len(cs) != 1 or size(P, cs[0]) > LIMIT:
                break
            g = cs[0]
            todo[g.fid] = g
    info = {}
    steps = 0
    for f in todo.values():
        h, I = run(P, f, base, tool)
        steps += I.steps
        for kw, t in h.terms.items():
            r = None
            for s in h.ends:
                x = I.iv(s, t)
                # an end point that the state excludes makes the interval open there
                lo = (x.lo, 1 if x.lo > -INF and I.decide(s, I.cmpterm('>', t, K(x.lo), 'f')) == 1 else 0)
                hi = (x.hi, -1 if x.hi < INF and I.decide(s, I.cmpterm('<', t, K(x.hi), 'f')) == 1 else 0)
                x = (lo, hi, bool(x.nan))
                r = x if r is None else (min(r[0], x[0]), max(r[1], x[1]), r[2] or x[2])
            e = info.setdefault(kw, {'defaults': set(), 'where': looked.get(kw, h.defloc[kw]), 'range': None, 'ret': strip_t(h.accof[kw].d.get('ret', '')), 'conv': conversion(P, h.accof[kw])})
            for d in h.defaults[kw]:
                e['defaults'].add(show(d))
            if r is not None:
                e['range'] = r[:3] if e['range'] is None else (max(e['range'][0], r[0]), min(e['range'][1], r[1]), e['range'][2] and r[2])
            looked.setdefault(kw, h.defloc[kw])
    # settings whose value is only echoed
    echoed = {kw: echo(P, kw, info[kw], todo.values(), acc) for kw in info}
    return tool, info, looked, echoed, steps, len(todo)


def show(d):
    if d is None:
        return 'none'
    if d.op == 'k':
        return repr(float(d.a[0])) if not isinstance(d.a[0], bool) else repr(float(d.a[0]))
    if d.op == 's':
        return repr(d.a[0])
    return re.sub(r'#\d+', '', str(d))


def echo(P, kw, e, fns, acc):
    """True if the variable that receives the keyword's value is read only for tests and printing in the function that sets it"""
    tgt = None
    for f in fns:
        for i, n in enumerate(f.N):
            if n['k'] in ('assign', 'asg', 'bin') and n.get('op', '=') == '=' and len(n.get('c', [])) == 2:
                if any(f.N[x]['k'] == 'str' and f.N[x].get('v') == kw for x in astu.walk(f.N, n['c'][1])):
                    l = peel(f.N, n['c'][0])
                    if l['k'] == 'mem' and l.get('dk') != 'global':
                        l = dict(l, d=None)
                    if l.get('dk') in ('global',) or l['k'] == 'mem':
                        tgt = (l.get('d'), l.get('m') if l['k'] == 'mem' and l.get('d') is None else l.get('q'), f)
    if tgt is None:
        return False
    for g in P.fns.values():
        for n in g.N:
            if (n.get('dk') == 'global' and n.get('d') == tgt[0] and n.get('q') == tgt[1] if tgt[0] is not None else n['k'] == 'mem' and n.get('m') == tgt[1]):
                if g.fid != tgt[2].fid and not only_written(g, n):
                    return False
    return True


def only_written(g, n):
    idx = next((i for i, m in enumerate(g.N) if m is n), None)
    return any(m['k'] in ('assign', 'asg', 'bin') and m.get('op', '=') == '=' and m.get('c', [None])[0] == idx for m in g.N)


def fmt(r):
    return ('(' if r[0][1] else '[') + f'{r[0][0] + 0.0:.17g}, {r[1][0] + 0.0:.17g}' + (')' if r[1][1] else ']') + (' or NaN' if r[2] else '')


def body(rep):
    res = {t: (i, l, e, s, n) for t, i, l, e, s, n in common.parallel(analyse, list(TOOLS))}
    (A, LA, EA, sa, na), (B, LB, EB, sb, nb) = res['adapt'], res['nrgchain']
    for t in TOOLS:
        looked = res[t][1]
        rep.count('keywords looked up', len(looked))
        for kw in DOC[t]:
            rep.count('documented keywords')
            if kw not in looked:
                near = [k for k in looked if k.lower().replace('s', '') == kw.lower().replace('s', '') or k.lower() == kw.lower()]
                rep.add(f'{t}:doc:{kw}', 'documented keywords are looked up', looked[near[0]] if near else common.MAINFILE[t],
                        f'{t} never looks up the documented keyword `{kw}`' + (f' (but `{near[0]}`)' if near else '') + ': the setting in the parameter file has no effect')
    for kw in sorted(set(A) & set(B)):
        a, b = A[kw], B[kw]
        rep.count('shared keywords')
        w = b['where']
        if a['defaults'] != b['defaults']:
            rep.add(f'default:{kw}', 'same default', w, f'`{kw}` defaults to {", ".join(sorted(a["defaults"]))} in adapt ({common.rel(a["where"])}) and to {", ".join(sorted(b["defaults"]))} in nrgchain')
        if len(a['defaults']) > 1:
            rep.add(f'defaults:{kw}', 'one default', a['where'], f'adapt looks up `{kw}` with different defaults: {sorted(a["defaults"])}')
        if a['ret'] != b['ret'] or a['conv'] != b['conv']:
            rep.add(f'conv:{kw}', 'same conversion', w, f'the text of `{kw}` is converted differently: {a["ret"]} by {cv(a)} in adapt ({common.rel(a["where"])}), {b["ret"]} by {cv(b)} in nrgchain')
        ra, rb = a['range'], b['range']
        if ra is None or rb is None or a['ret'] not in ('double', 'int', 'float', 'long', 'unsigned int', 'size_t', 'unsigned long'):
            continue
        rep.count('accepted ranges compared')
        if ra == rb:
            continue
        sub = rb[0] <= ra[0] and rb[1] >= ra[1] and (rb[2] or not ra[2])
        if sub and EB.get(kw):
            continue  # nrgchain only echoes the value and accepts whatever adapt accepts
        if EA.get(kw) and ra[0] <= rb[0] and ra[1] >= rb[1] and (ra[2] or not rb[2]):
            continue
        rep.add(f'range:{kw}', 'same accepted range', w, f'adapt accepts `{kw}` in {fmt(ra)} ({common.rel(a["where"])}), nrgchain in {fmt(rb)}')
    rep.count('set-up functions interpreted', na + nb)
    rep.count('abstract steps', sa + sb)
    rep.details['keywords'] = {t: {k: {'default': sorted(v['defaults']), 'range': fmt(v['range']) if v['range'] else None, 'conversion': cv(v)} for k, v in res[t][0].items()} for t in TOOLS}
    rep.need('shared keywords', 3)
    rep.need('accepted ranges compared', 1)
    rep.rules.append('for every keyword looked up by both tools: equal default, equal conversion, equal accepted range (if one tool only echoes the value, it accepts at least what the '
                     'other accepts); every documented keyword is looked up')
    return ('The functions of adapt and nrgchain that look up parameter-file keywords are found from the map lookups, and they and the enclosing set-up functions are interpreted with an unknown text for '
            'every keyword; the values with which they return normally give the accepted range.')


def cv(e):
    return '/'.join(sorted(e['conv'][0]) or ['text']) + (f' ({", ".join(sorted(e["conv"][1]))})' if e['conv'][1] else '')


if __name__ == '__main__':
    common.run('T11', body)
