"""T12: tables read from files are sorted and long enough when they are handed to an interpolation or integration routine."""
import re

import common
import tooldrv
from terms import S, K, Term, isnum, fresh
from absint import L, strip_t, inst

PARSE = {'parse_d', 'atof', 'strtod', 'stod', 'stof'}
CONSUMER = re.compile(r'lin_?int|linear', re.I)
TOOLS = ['adapt', 'nrgchain', 'intavg', 'integ', 'hilb', 'kk']
MINPTS = {'gsl_interp_akima': 5, 'gsl_interp_cspline': 3, 'gsl_interp_linear': 2, 'gsl_interp_steffen': 3, 'gsl_interp_polynomial': 3, 'gsl_interp_cspline_periodic': 2, 'gsl_interp_akima_periodic': 5}


class H(tooldrv.Hooks):
    """Field '#ord' of a container: 2 = holds unsorted data read from a file, 1 = file data in sorted order; '#sorted' is maintained by the engine."""

    def __init__(self, tool):
        super().__init__(tool)
        self.src = {}
        self.tainted = {}
        self.objs = {}
        self.ordv = {}

    # ---- is a value read from a file / loaded from a container?
    def file(self, t, d=0):
        r = self.tainted.get(t)
        if r is None and d < 12:
            r = False
            if t.op == 'fn' and t.a[0] in PARSE or t.op == 'sym' and t.a[1] == 'filedata':
                r = not self.param(t)
            elif t.op not in ('phi', 'sym', 'k', 's'):
                for x in t.a:
                    if isinstance(x, Term) and self.file(x, d + 1):
                        r = True
                        break
            if t.op != 'phi':
                self.tainted[t] = r
        return bool(r)

    def param(self, t, d=0):
        """text of an option, argument or keyword of the parameter file"""
        if t.op == 'argvk' or t.op == 'fn' and t.a[0] == 'optarg':
            return True
        if t.op in ('init', 'addr') and isinstance(t.a[0], tuple) and any(isinstance(f, tuple) and f and f[0] == '#at' for f in t.a[0]):
            return True
        return d < 8 and any(isinstance(x, Term) and self.param(x, d + 1) for x in t.a)

    def on_phi(self, p, vals, weak):
        if any(isinstance(v, Term) and self.file(v) for v in vals):
            self.tainted[p] = True
        o = max([self.ordv.get(p, 0)] + [self.code(v) for v in vals if isinstance(v, Term) and v is not p])
        if o:
            self.ordv[p] = o

    def on_elemload(self, st, loc, t):
        i = max(j for j, x in enumerate(loc) if x == '#elem') if '#elem' in loc else None
        if i is not None and not (len(loc) > i + 1 and loc[-1] == 'second'):
            self.src[t] = loc[:i]

    def order(self, I, st, c):
        """1 = sorted, 0 = may be unsorted file data, None = no file data"""
        s = st.raw(c + ('#sorted',))
        if s is not None and I.iv(st, s).const() == 1:
            return 1
        o = self.code(st.raw(c + ('#ord',)))
        # a container that was sorted and not changed since has '#sorted' 1; joins of such containers keep '#ord'
        return None if not o else 1 if o == 1 else 0

    def code(self, t):
        """value of an '#ord' field: 2 unsorted file data, 1 sorted, 0 no file data"""
        if t is None:
            return 0
        if isnum(t):
            return t.a[0] if t.a[0] in (0, 1, 2) else 0
        if t.op == 'inst':
            return self.code(t.a[0])
        return self.ordv.get(t, 0)

    def key(self, I, st, v):
        """the abscissa of a stored value"""
        if isinstance(v, L):
            for p in (('first',), ()):
                loc = tuple(v) + p
                t = st.raw(loc)
                if t is not None:
                    if '#elem' in loc:
                        self.on_elemload(st, loc, t := inst(t, v.cur or fresh('cp')))
                    return t
            return None
        return v

    def put(self, I, st, c, t):
        if t is None:
            return
        s = self.src.get(t)
        if s is not None:
            o = self.order(I, st, s)
            if o is not None:
                self.set(I, st, c, o)
        elif self.file(t) or self.code(st.raw(c + ('#ord',))):
            self.set(I, st, c, 0)

    def on_sort(self, I, st, fr, n, loc, full):
        if full and self.code(st.raw(loc + ('#ord',))):
            s = st.raw(loc + ('#sorted',))
            if s is not None and s.op == 'fn' and s.a[0] == 'sortedby' and self.byfirst(I, s.a[1]):
                st.put(loc + ('#sorted',), s := K(1))
            st.put(loc + ('#ord',), K(1 if s is not None and I.iv(st, s).const() == 1 else 2))

    def byfirst(self, I, cmp):
        """a comparator that returns a.first < b.first"""
        f = I.prog.fns.get(cmp.a[0]) or I.prog.generic.get(cmp.a[0]) if cmp.op in ('lam', 'func') else None
        if f is None or len(f.params) != 2:
            return False
        rets = [n for n in f.N if n['k'] == 'return' and n['c']]
        if len(rets) != 1:
            return False

        def side(i):
            first = False
            while i is not None and i >= 0:
                n = f.N[i]
                if n['k'] in ('mem', 'depmem') and n.get('m') == 'first' and not first:
                    first = True
                elif n['k'] == 'ref':
                    return (n.get('d'), first)
                elif len(n.get('c', [])) != 1:
                    return None
                i = n['c'][0]
            return None
        e = rets[0]['c'][0]
        while f.N[e]['k'] not in ('bin', 'opcall') and len(f.N[e].get('c', [])) == 1:
            e = f.N[e]['c'][0]
        e = f.N[e]
        if e['k'] != 'bin' or e['op'] not in ('<', '>'):
            return False
        x, y = side(e['c'][0]), side(e['c'][1])
        p = [q['id'] for q in f.params]
        if e['op'] == '>':
            x, y = y, x
        return x is not None and y is not None and x[1] and y[1] and [x[0], y[0]] == p

    def set(self, I, st, c, o):
        st.put(c + ('#ord',), K(max(self.code(st.raw(c + ('#ord',))), 1 if o == 1 else 2)))

    def on_push(self, I, st, fr, n, loc, args):
        args = args[-1:] if len(args) == 1 else args[:1]
        if args:
            self.put(I, st, loc, self.key(I, st, args[0]))

    def on_assign(self, I, st, fr, n, loc, val):
        if '#elem' not in loc or loc[-1] == 'second':
            return
        i = max(j for j, x in enumerate(loc) if x == '#elem')
        c = loc[:i]
        # rescaling all abscissae by the same positive factor keeps the order
        fac = self.factor(val)
        if fac is not None and n['k'] == 'bin' and n['op'] in ('*=', '/='):
            iv = I.iv(st, fac)
            if iv.lo > 0 or iv.lo == 0 and iv.lo_open:
                return
        s = st.raw(c + ('#sorted',))
        was = self.order(I, st, c)
        if s is not None and isinstance(val, Term):
            st.put(c + ('#sorted',), K(0))
        src = self.src.get(val) if isinstance(val, Term) else None
        if src is not None and src != c:
            self.put(I, st, c, val)
        elif was is not None and self.code(st.raw(c + ('#ord',))) or isinstance(val, Term) and self.file(val):
            st.put(c + ('#ord',), K(2))

    def on_objassign(self, I, st, fr, n, d, s):
        if '#elem' in d:
            i = max(j for j, x in enumerate(d) if x == '#elem')
            st.put(d[:i] + ('#sorted',), K(0))
            self.put(I, st, d[:i], self.key(I, st, L(s)))

    def factor(self, val):
        if isinstance(val, Term) and val.op == 'fn' and val.a[0] in ('*', '/'):
            a, b = val.a[1], val.a[2]
            if a in self.src:
                return b
            if b in self.src and val.a[0] == '*':
                return a
        return None

    # ---- consumers
    def on_enter(self, I, st, fr, f, n):
        if f.kind == 'ctor':
            t = st.raw((('this', fr.ctx),))
            if t is not None and t.op == 'addr':
                self.objs[fr.ctx] = t.a[0]

    def on_leave(self, I, fr, f, n, out):
        if f.kind != 'ctor' or not CONSUMER.search(f.q.split('::')[-1]) or I.quiet or fr.ctx not in self.objs or not f.params:
            return
        where = f'{f.file}:{f.line}' if not fr.parent else I.where(fr.parent, n)
        for st, _ in out:
            self.table(I, st, self.objs[fr.ctx], f, where)

    def table(self, I, st, o, f, where):
        for b, d in st.env.items():
            if b != o[0]:
                continue
            for p in list(d):
                loc = (b,) + p
                if loc[:len(o)] == o and loc[-1] == '#size':
                    c = loc[:-1]
                    od = self.order(I, st, c)
                    if not self.code(st.raw(c + ('#ord',))):
                        self.site('tables not read from a file', where)
                        continue
                    self.site('tables interpolated', where)
                    if od == 0:
                        self.add(f'sorted:{f.q}:{where}', 'tables are sorted before interpolation', where, f'a table read from a file is handed to {f.q} although it may be unsorted')
                    sz = I.iv(st, st.get(loc))
                    if sz.lo < 2:
                        self.add(f'size:{f.q}:{where}', 'tables have at least two points before interpolation', where, f'a table read from a file is handed to {f.q} although it may have only {max(sz.lo, 0):g} points')

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        if name == 'gsl_spline_init' or name == 'gsl_interp_init':
            where = I.where(fr, n)
            for j in (1,):
                v = vs[j]
                v = I.load(st, v, fr, n) if isinstance(v, L) else v
                if v.op != 'addr' or '#elem' not in v.a[0]:
                    if I.quiet == 0:
                        self.add(f'gslarg:{fr.fn.q}', 'the table handed to GSL is known', where, 'cannot determine which table is handed to the interpolation routine')
                    continue
                c = v.a[0][:max(j for j, x in enumerate(v.a[0]) if x == '#elem')]
                if I.quiet:
                    continue
                if not self.code(st.raw(c + ('#ord',))):
                    self.site('tables not read from a file', where)
                    continue
                self.site('tables interpolated', where)
                if self.order(I, st, c) == 0:
                    self.add(f'sorted:{fr.fn.q}', 'tables are sorted before interpolation', where, 'a table read from a file is handed to the interpolation routine although it may be unsorted')
        return None


def pred(f, n):
    if n['k'] in ('call', 'mcall', 'opcall') and n.get('n') in ('push_back', 'emplace_back', 'sort', 'stable_sort', 'gsl_spline_init', 'resize', 'erase', 'insert', 'assign'):
        return True
    if n['k'] == 'ctor' and CONSUMER.search(n.get('cls') or ''):
        return True
    if n['k'] == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and n['c'][0] >= 0:
        x = f.N[n['c'][0]]
        return x['k'] == 'mem' and x.get('m') == 'first'
    return False


def body(rep):
    rep.rules = ['every table with data read from a file is sorted by abscissa when an interpolation object is built from it',
                 'it has at least two points then (GSL tables: the routine checks the number itself and its result is tested, see T09)']
    tooldrv.run_tools(rep, H, TOOLS, eff={'event_pred': pred})
    rep.need('tables interpolated', 8)
    return ('Abstract interpretation with the order of each container as part of its state: unsorted when a value parsed from a file is stored, sorted after std::sort, inherited on '
            'copies. Obligation at every construction of an interpolation object and every gsl_spline_init.')


if __name__ == '__main__':
    common.run('T12', body)
