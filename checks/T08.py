"""T08: an in-process chain calculation does not depend on earlier calculations in the same process.

The state an earlier calculation may leave behind is found by running the abstract interpreter over the entry points and comparing the globals and static
locals before and after (successful and failed ends); those variables are then given unknown contents at the next entry, until no new variable is changed.  Any
read of such unknown contents during a calculation is a dependence on history."""
import re

import common
import absint
import astu
import coredrv
import effects
import models
from absint import St, L, K, OBJ, strip_t
from tooldrv import Hooks

FLAGS = common.TFLAGS + ['-DNRGCHAIN_NO_MAIN']
NS = 'NRG::Tools::NrgChain::'
FRESH = {'clear', 'assign', 'operator='}
LIBINIT = re.compile(r'^(__gmpf_init|mpf_init)$')
LIBSET = re.compile(r'^(__gmpf_set_default_prec|mpf_set_default_prec)$')
LIBUSE = re.compile(r'^(std::)?(rand|random|drand48|lrand48|strtok|getenv|time|clock_gettime|localeconv|fegetround)$')


class H(Hooks):
    def __init__(self, tool, mutable, setsprec):
        super().__init__(tool)
        self.mutable = mutable     # root locations an earlier calculation can have changed
        self.setsprec = setsprec
        self.stale = {}
        self.reads = {}

    def name(self, root):
        return root[1].split('@')[0]

    def report(self, fr, n, root, how):
        if self.I.quiet or root is None:
            return
        if root[0] != 'g':
            return
        if self.I.curstmt is not None:
            fr, n = self.I.curstmt
        g = self.name(root)
        self.add(f'state|{root[1]}', 'state of an earlier calculation is not used', self.I.where(fr, n) if fr and n else 'tools/nrgchain/nrgchain.cc',
                 f'{how} `{g}`, which still holds what an earlier calculation in this process left there (called from {self.tool})')

    # ---- start
    def on_start(self, I, st):
        for root, d in self.base.items():
            if root not in self.mutable:
                st.env[root] = dict(d)
                st.own.add(root)
        if self.setsprec:
            st.setghost(K(1), 'prec')

    def join_ghost(self, I, key, vals):
        if key and key[0] in ('prec', 'part', 'stl'):
            return max(vals, key=lambda v: v.a[0] if v is not None and v.op == 'k' else 0)
        return None

    def signature(self, I, st):
        return 0

    # ---- scalars
    def first(self, t):
        return t.op == 'init' and t.a[0][0] in self.mutable and t.a[1].op == 'k'

    def bad(self, t):
        return self.first(t) or t in self.stale

    def on_phi(self, p, vals, weak):
        for v in vals:
            if v is not None and self.bad(v):
                self.stale[p] = self.root(v)

    def on_init_read(self, I, st, fr, n, loc, t):
        if fr is not None:
            self.last = (fr, n)
        if self.first(t):
            self.report(fr, n, t.a[0][0], 'reads')

    def on_load(self, st, loc):
        I = self.I
        if loc[0][0] == 'g':
            self.count('loads of global state')
        if '#elem' in loc and loc[0] in self.mutable:
            c = loc[:loc.index('#elem')]
            g = st.ghost('part', c)
            if g is not None and g.a[0] == 1:
                self.report(self.fr, self.nd, loc[0], 'reads elements that resize() kept of')
        t = st.raw(loc)
        if t is not None and t in self.stale:
            self.report(self.fr, self.nd, self.root(t), 'reads')
        elif t is None and loc[0] in self.mutable:
            self.whole(st, loc, self.fr, self.n)

    def root(self, t):
        return self.stale.get(t) or (t.a[0][0] if t.op == 'init' else None)

    # ---- objects
    def is_stale(self, st, loc):
        src, ep = st.origin(loc)
        if ep.op == 'k':
            return src[0] if src[0] in self.mutable else None
        if ep.op in ('phi', 'sym'):
            g = st.ghost('stl', loc)
            return loc[0] if g is not None and g.a[0] == 1 and loc[0] in self.mutable else None
        return None

    def on_before(self, st):
        pass

    def before_join(self, I, states):
        for s in states:
            for root in self.mutable:
                if root in self.conts:
                    s.setghost(K(1 if self.is_stale(s, (root,)) else 0), 'stl', (root,))

    def whole(self, st, loc, fr, n, what='uses'):
        """the object at loc is used as a whole"""
        I = self.I
        t = self.types.get(loc[0])
        k = I.kind(t) if t and len(loc) == 1 else None
        if len(loc) == 1 and k in ('seq', 'map'):
            r = self.is_stale(st, loc)
            if r:
                self.report(fr, n, r, what)
            g = st.ghost('part', loc)
            if g is not None and g.a[0] == 1:
                self.report(fr, n, loc[0], what)
        elif len(loc) == 1 and k == 'class':
            self.members(st, loc, strip_t(t), fr, n, what, 0)

    def members(self, st, loc, t, fr, n, what, d):
        I = self.I
        c = I.prog.classes.get(t)
        if c is None or d > 4:
            return
        for b in c['bases']:
            self.members(st, loc, strip_t(b['t']), fr, n, what, d + 1)
        for f in c['fields']:
            l = loc + (f['n'],)
            k = I.kind(f['t'])
            if k in ('seq', 'map'):
                src, ep = st.origin(l)
                if ep.op == 'k' and src[0] in self.mutable:
                    self.report(fr, n, src[0], what)
            elif k == 'class':
                self.members(st, l, strip_t(f['t']), fr, n, what, d + 1)
            elif k not in OBJ:
                v = st.get(l)
                if self.bad(v):
                    self.report(fr, n, loc[0], what)

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        self.fr, self.nd = fr, n
        b = n.get('n', '')
        if LIBSET.match(b):
            st.setghost(K(0), 'prec')
        elif LIBINIT.match(b):
            g = st.ghost('prec')
            if g is not None and g.a[0] == 1 and not I.quiet:
                self.add('mpf-precision', 'state of an earlier calculation is not used', I.where(fr, n),
                         'creates a multiprecision number before the default precision of this calculation is set: it gets the precision an earlier calculation set')
            self.count('multiprecision numbers created')
        elif LIBUSE.match(b) and not I.quiet and n.get('fid') not in I.prog.fns:
            self.add(f'lib:{b}', 'state of an earlier calculation is not used', I.where(fr, n), f'calls {b}(), whose result depends on process-wide state')
        if n.get('fid') in I.prog.fns:
            return None
        if obj is not None:
            o = self.loc(I, st, obj, n)
            if o is not None and o[0] in self.mutable:
                if b == 'clear' or b in ('operator=', 'assign') and (len(o) == 1 or True):
                    self.fresh(st, o)
                elif b == 'resize' and len(o) == 1:
                    if self.is_stale(st, o) and len(vs) >= 1:
                        st.setghost(K(1), 'part', o)
                        st.put(o + ('#ep',), absint.mk('ep', o, absint.mk('zero')))
                elif b == 'swap' and vs and isinstance(vs[0], L):
                    pass  # whatever receives the contents is judged when it is read
                elif b == 'operator[]' and len(o) == 1 and st.ghost('part', o) is not None:
                    pass  # judged when the element is read
                elif b in ('size', 'empty') and len(o) == 1 and st.ghost('part', o) is not None:
                    pass
                else:
                    self.whole(st, o, fr, n, f'calls {b}() on')
        for v in vs if b != 'swap' else ():
            o = self.loc(I, st, v, {})
            if o is not None and o[0] in self.mutable:
                self.whole(st, o, fr, n, f'passes to {b}()')
        return None

    def loc(self, I, st, v, n):
        if isinstance(v, L):
            return tuple(v)
        if v is not None and v.op == 'addr':
            return v.a[0]
        return None

    def fresh(self, st, o):
        st.delghost('part', o)

    def on_objassign(self, I, st, fr, n, d, s):
        self.fresh(st, d)

    def on_range_iter(self, I, st, fr, n, src, k):
        if src is not None and src[0] in self.mutable:
            self.whole(st, src, fr, n, 'iterates over')

    def on_write(self, I, st, fr, n, loc, v, t):
        self.fr, self.nd = fr, n
        if loc[0] in self.mutable and not I.quiet:
            self.site('writes to state kept between calculations', (I.where(fr, n), loc[0]))

    # ---- loops that fill a resized container: for (m = 0; m <= last; m++) { ...; v[m] = x; ... }
    def fills(self, fr, n):
        """(induction variable, {global containers assigned at [variable] in every iteration}) of a counting loop"""
        N = fr.fn.N
        if n['k'] != 'for' or any(c is None or c < 0 for c in n['c']):
            return None
        init, cond, inc, body = n['c']
        d = N[init]
        if d['k'] != 'decl' or len(d['vars']) != 1 or astu.leaves(N, body):
            return None
        v = d['vars'][0]
        if N[inc]['k'] not in ('inc', 'unop', 'un', 'preinc') and '++' not in str(N[inc]):
            return None
        out = set()
        todo = [body]
        while todo:
            x = N[todo.pop()]
            if x['k'] in ('block', 'paren', 'cleanups'):
                todo += x.get('c', [])
                continue
            for y in [x]:
                if y['k'] in ('asg', 'bin', 'assign') and y.get('op') == '=' or y['k'] == 'assign':
                    l = y['c'][0]
                    ln = N[l]
                    while ln['k'] in ('paren', 'cast'):
                        ln = N[ln['c'][0]]
                    if ln.get('n') == 'operator[]' and len(ln['c']) >= 2:
                        base, ix = N[ln['c'][-2]], N[ln['c'][-1]]
                        while ix['k'] in ('cast', 'icast', 'paren'):
                            ix = N[ix['c'][0]]
                        while base['k'] in ('cast', 'icast', 'paren'):
                            base = N[base['c'][0]]
                        if ix.get('d') == v['id'] and base.get('dk') in ('global', 'slocal'):
                            out.add((('g', base.get('q') or base['n']),))
        return v, out

    def on_loop_exit(self, I, st, fr, n, how):
        if how != 'done' or n['k'] != 'for':
            return
        r = self.fills(fr, n)
        if not r or not r[1]:
            return
        v, cs = r
        i0 = fr.fn.N[v['init']] if v.get('init') is not None else {}
        while i0.get('k') in ('cast', 'icast', 'paren', 'init'):
            i0 = fr.fn.N[i0['c'][0]]
        if i0.get('cv', i0.get('v')) not in (0, '0'):
            return
        x = st.raw((('v', v['id'], fr.ctx),))
        for c in cs:
            if x is not None and st.ghost('part', c) is not None and I.decide(st, I.cmpterm('>=', x, models.size_of(I, st, c), 'i')) == 1:
                st.delghost('part', c)

    def on_exit(self, I, st, v, fr, n, kind):
        if not I.quiet:
            self.count('ends of calculations')
        self.ends.append(st)


def entries(P):
    inner = {c.fid for f in P.fns.values() for c in coredrv.calls(P, f)}
    return [f for f in P.fns.values() if f.q.startswith(NS) and f.kind == 'fn' and f.fid not in inner]


def body(rep):
    P = absint.Prog(common.extract('tools/nrgchain/nrgchain.cc', FLAGS, ['tools', 'c++'], 'nrgchain_core'))
    _P.append(P)
    es = entries(P)
    allf = coredrv.reach(P, es)
    setsprec = any(LIBSET.match(n.get('n', '')) for f in allf.values() for n in f.N if n['k'] == 'call')
    types = {}
    for g in P.glist:
        types[('g', g['q'] + (f"@{g['id']}" if g.get('static') else ''))] = g['t']
    I0 = coredrv.CoreInterp(P, None)
    base = I0.init_globals(St()).env
    base = {r: dict(d) for r, d in base.items() if r[0] == 'g' and r in types}
    # static locals are initialised when control first passes: only constants are as good as the program's start
    dyn = {('g', g['q'] + f"@{g['id']}") for g in P.glist if g.get('static') and g.get('nodes') and any(
        x['k'] in ('call', 'mcall', 'opcall') or x.get('dk') in ('var', 'global', 'slocal', 'parm', 'param') and not x.get('cv') for x in g['nodes'])}
    const = {r for g in P.glist for r in [('g', g['q'] + (f"@{g['id']}" if g.get('static') else ''))] if g.get('const')}
    # every variable is taken as unknown first; those that no calculation changes keep the value they have at the program's start
    mutable = (set(types) - const) | dyn
    res = common.parallel(drive, [(f.fid, mutable, setsprec, base, types) for f in es])
    changed = set(dyn)
    for h, ch in res:
        changed |= ch
    for h, _ in res:
        h.found = {k: v for k, v in h.found.items() if not k.split('|')[1:] or k.split('|')[1] in {r[1] for r in changed}}
        coredrv.merge(rep, h)
    mutable = changed
    rep.count('entry points', len(es))
    rep.count('globals and static locals', len(types))
    rep.count('of these changed by a calculation', len(mutable))
    rep.details['state'] = {'changed by a calculation': sorted(r[1] for r in mutable)}
    rep.need('entry points', 1)
    rep.need('of these changed by a calculation', 5)
    rep.need('ends of calculations', 2)
    rep.rules.append('no read, during a calculation, of a global or static local that an earlier calculation can have changed, before this calculation has overwritten it; '
                     'multiprecision numbers are created after the precision of this calculation is set')
    return ('Every in-process entry point of the chain generator is interpreted from a state in which each global or static local that any calculation (successful '
            'or failed) can change is unknown; every read of such contents before the calculation overwrites them is reported.')


_P = []


def drive(a):
    fid, mutable, setsprec, base, types = a
    P = _P[0]
    f = P.fns[fid]
    h = H(f.q, mutable, setsprec)
    h.base, h.types, h.ends, h.fr, h.nd = base, types, [], None, None
    I = coredrv.CoreInterp(P, h)
    h.conts = {r for r, t in types.items() if I.kind(t) in ('seq', 'map')}
    I.effects = effects.Effects(P)
    h.I = I
    I.run_function(f)
    h.count('functions interpreted', len(I.inlined))
    h.count('abstract steps', I.steps)
    changed = set()
    for s in h.ends:
        for r in types:
            d = s.env.get(r)
            b = base.get(r)
            if d is not None and (r in mutable and any(not (v.op == 'init' and v.a[0] == (r,) + k) for k, v in d.items()) or
                                  r not in mutable and (b is None or any(b.get(k) is not v for k, v in d.items()))):
                changed.add(r)
    for x in ('I', 'ends', 'fr', 'nd', 'base', 'types', 'mutable', 'stale', 'last', 'conts'):
        h.__dict__.pop(x, None)
    return h, changed


if __name__ == '__main__':
    common.run('T08', body)
