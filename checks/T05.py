"""T05: a parameter outside its domain (not-a-number included) never reaches output or exit status 0."""
import re

import common
import tooldrv
import T07
from terms import S, K, Term, Iv, INF, isnum, sub, lin_parts

GE1 = ('at least 1', Iv(1, INF))
GE0 = ('at least 0', Iv(0, INF))
POS = ('positive', Iv(0, INF, lo_open=True))
GT1 = ('greater than 1', Iv(1, INF, lo_open=True))
# parameter: ('arg', k) k-th argument after the options; ('opt', letter); ('key', keyword of the parameter file); ('flat',) value of adapt --flat
DOM = {
    'binavg': {('arg', 1): GE1},
    'mats': {('arg', 1): GE1, ('arg', 2): POS, ('arg', 3): GE1},
    'bw': {('arg', 1): POS, ('arg', 2): GE1, ('opt', 'r'): GT1, ('opt', 'm'): POS},
    'specmoments': {('arg', 1): GE1},
    'intavg': {('arg', 1): GE1},
    'integ': {('opt', 'T'): POS},
    'adapt': {('key', 'Lambda'): GT1, ('key', 'xmax'): GT1, ('key', 'xfine'): GT1, ('key', 'outputstep'): ('positive and at most 1', Iv(0, 1, lo_open=True)),
              ('key', 'max_abs'): POS, ('key', 'bandrescale'): POS, ('flat',): ('positive and finite', Iv(0, INF, lo_open=True, hi_open=True))},
    'nrgchain': {('key', 'Lambda'): GT1, ('key', 'z'): ('in (0,1]', Iv(0, 1, lo_open=True)), ('key', 'xmax'): GE1, ('key', 'mMAX'): GE1,
                 ('key', 'preccpp'): ('greater than 10', Iv(11, INF)), ('key', 'Nmax'): GE0, ('key', 'bandrescale'): POS},
}
MIXED = {('key', 'mMAX')}      # the default is computed from another parameter
LESS = {'bw': [(('opt', 'm'), ('opt', 'M'), 'the lower mesh limit must be below the upper one')]}
ALIAS = {('opt', 't'): ('opt', 'T')}       # integ: -t and -T are the same option


def subterms(t, d=0):
    yield t
    if d < 12:
        for x in t.a:
            if isinstance(x, Term):
                yield from subterms(x, d + 1)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        yield from subterms(y, d + 1)


class H(tooldrv.Hooks):
    def __init__(self, tool):
        super().__init__(tool)
        self.prov = {}
        self.dom = DOM[tool]
        self.order = 0

    # ---- which parameter does a parsed text come from?
    def source(self, I, st, s):
        for x in subterms(s):
            if x.op == 'fn' and x.a[0] == 'optarg':
                c = I.iv(st, x.a[1]).const()
                if c is not None:
                    p = ('opt', chr(int(c)))
                    return ALIAS.get(p, p) if self.tool == 'integ' else p
            if x.op == 'argvk':
                items, c = lin_parts(x.a[0])
                if len(items) == 1 and items[0][1] == 1 and (items[0][0].op == 'g' or items[0][0].op == 'sym' and items[0][0].a[1] == 'optind'):
                    return ('arg', c)
                if self.tool == 'adapt':
                    return ('flat',)
            for loc in ([x.a[0]] if x.op in ('init', 'addr') and isinstance(x.a[0], tuple) else []):
                for f in loc:
                    if isinstance(f, tuple) and len(f) == 2 and f[0] == '#at':
                        return ('key', f[1].a[0] if isinstance(f[1], Term) else f[1])
        return None

    def on_parse(self, I, st, fr, n, kind, s, val):
        if val.op == 'k':
            return
        p = self.source(I, st, s)
        self.notes.append(f'{I.where(fr, n)} {kind} {p}') if not I.quiet else None
        if p in self.dom or any(p in (a, b) for a, b, _ in LESS.get(self.tool, ())):
            self.prov[val] = frozenset([p])
            if p[0] == 'arg':
                st.setghost(val, 'par', p)
            if not I.quiet:
                self.site('parameters', p)
                self.site('parse sites', I.where(fr, n))

    def on_phi(self, p, vals, weak):
        if weak:
            self.prov[p] = frozenset(['?'])
            return
        r = self.prov.get(p, frozenset())
        for v in vals:
            if v is not p:
                r = r | self.of(v)
        if r:
            self.prov[p] = r

    def of(self, t):
        while t.op == 'inst' or t.op == 'fn' and t.a[0] == 'uns':
            t = t.a[0] if t.op == 'inst' else t.a[1]
        r = self.prov.get(t)
        if r is not None:
            return r
        if t.op == 'k':
            return frozenset()
        return frozenset(['?'])

    # ---- obligations
    def where_live(self, st):
        for b, d in st.env.items():
            for loc, v in d.items():
                if isinstance(v, Term) and not any(x in ('first', 'second', '#elem') for x in loc):
                    p = self.of(v)
                    q = p - {'?'}
                    if len(q) == 1 and (len(p) == 1 or next(iter(q)) in MIXED):
                        yield b, loc, next(iter(q)), v

    def check(self, I, st, fr, n, what):
        if I.quiet:
            return
        where = I.where(fr, n)
        self.site('output points', where)
        vals = {}
        for b, loc, p, v in self.where_live(st):
            vals.setdefault(p, set()).add(v)
        for (p,), v in st.ghosts('par'):
            vals.setdefault(p, set()).add(v)
        for p, vs in vals.items():
            dom = self.dom.get(p)
            if dom is None:
                continue
            for v in vs:
                while v.op == 'inst' or v.op == 'fn' and v.a[0] == 'uns':
                    v = v.a[0] if v.op == 'inst' else v.a[1]
                iv = I.iv(st, v)
                self.site('obligations', (where, p))
                if not iv.subset(dom[1]) or iv.nan:
                    nm = f'option -{p[1]}' if p[0] == 'opt' else f'argument {p[1] + 1}' if p[0] == 'arg' else f'keyword {p[1]}' if p[0] == 'key' else '--flat'
                    self.add(f'{p}', f'parameter domain: {dom[0]}', where, f'{nm} must be {dom[0]} but may be {iv} when {what}')
        for a, b, txt in LESS.get(self.tool, ()):
            for x in vals.get(a, ()):
                for y in vals.get(b, ()):
                    d = I.iv(st, sub(y, x))
                    self.site('obligations', (where, a, b))
                    if not (d.lo > 0 or d.lo == 0 and d.lo_open) or d.nan:
                        self.add(f'{a}{b}', 'relation between parameters', where, f'{txt} ({d}) when {what}')

    def on_open(self, I, st, fr, n, loc, name, d, opened):
        if d == 'in':
            st.setghost(K(1), 'input')
        else:
            self.check(I, st, fr, n, 'an output file is opened')

    def on_write(self, I, st, fr, n, loc, v, t):
        if not I.quiet and st.raw(loc + ('#dir',)) is S('std') and st.raw(loc + ('#name',)) is not S('std::cerr') and st.ghost('input') is not None \
           and T07.strip_t(t) in T07.FLT and not T07.labelled(fr, n):
            self.check(I, st, fr, n, 'a result is printed')

    def on_exit(self, I, st, status, fr, n, kind):
        iv = I.iv(st, status)
        if iv.lo > 0 or iv.hi < 0 or iv.empty_num() or st.ghost('input') is None:
            return
        self.check(I, st, fr, n, 'the run ends with status 0')


def body(rep):
    rep.rules = [f'{t}: {p} {d[0]}' for t, m in DOM.items() for p, d in m.items()] + [x[2] for l in LESS.values() for x in l]
    tooldrv.run_tools(rep, H, list(DOM), eff={'stdout_events': True})
    rep.need('parameters', 15)
    rep.need('obligations', 20)
    return ('Abstract interpretation with intervals that include not-a-number. The origin of a value (argument, option, keyword) is followed through copies and joins; wherever an '
            'output file is opened, a result is printed or the run ends with status 0 after reading input, every live variable holding a parameter must be inside its domain. '
            'Assertions are compiled out, as in the shipped build.')


if __name__ == '__main__':
    common.run('T05', body)
