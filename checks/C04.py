"""C04: the completion marker is written only after everything succeeded."""
import re

import astu
import common
import coredrv
import absint
from terms import K, S, fresh, isnum
from absint import L, Frame, OBJ, NOVAL, strip_t, strip_targs, mk

MARK = 'DONE'
LAPACK = re.compile(r'^[sdcz](sy|he)(ev|gv)\w*?_?$')
FILES = ('std::basic_ofstream', 'std::basic_fstream', 'std::ofstream', 'std::fstream', 'boost::archive', 'HighFive::File', 'h5_')
STD = ('std::cout', 'std::cerr', 'std::clog')


def opens(f):
    """does the function create or hold a file or archive written to?"""
    return any(x in n.get('t', '') or x in n.get('cls', '') for n in f.N if n['k'] in ('ctor', 'mcall', 'call') for x in FILES)


class Core:
    """who reaches what"""

    def __init__(self, P):
        self.P = P
        self.lits = {g for g, d in P.globals.items() if MARK in str(d.get('init', ''))} if isinstance(P.globals, dict) else set()
        self.marks = [f for f in P.fns.values() if any(n['k'] == 'str' and n.get('v', n.get('s')) == MARK for n in f.N)]
        callers = {}
        for f in P.fns.values():
            for g in coredrv.calls(P, f):
                callers.setdefault(g.fid, set()).add(f.fid)
        self.callers = callers
        self.upto = self.up(f.fid for f in self.marks)
        lap = self.up(f.fid for f in P.fns.values() if any(n['k'] == 'call' and LAPACK.match(n.get('n', '')) for n in f.N))
        virt = {P.fns[x].n for x in lap if P.fns[x].d.get('virt')}
        self.engine = self.up({f.fid for f in P.fns.values() if any(n['k'] == 'mcall' and n.get('n') in virt for n in f.N)} | lap)
        self.files = self.up(f.fid for f in P.fns.values() if opens(f))
        self.work = self.engine | self.files
        self.passes = {x for x in self.engine if any('RUNTYPE' in p['t'] for p in P.fns[x].params) and P.fns[x].kind != 'ctor'}
        self.above = self.up(self.passes) - self.passes
        self.loops = self.up(f.fid for f in P.fns.values() if any(n['k'] in astu.LOOPS for n in f.N))
        self.throws = self.up(f.fid for f in P.fns.values() if any(n['k'] == 'throw' for n in f.N))

    def up(self, fids):
        r = set()
        todo = list(fids)
        while todo:
            x = todo.pop()
            if x in r:
                continue
            r.add(x)
            todo += self.callers.get(x, ())
        return r


class Interp(coredrv.CoreInterp):
    """calls that cannot reach the marker are opaque: they return anything or throw"""
    core = None

    def inline(self, f, st, fr, i, n, vs, this=None, **kw):
        if fr is None or f.fid in self.core.upto or f.fid in self.core.above or f.kind == 'dtor' and f.fid not in self.core.work or f.n == 'operator()' or f.fid not in self.core.work and f.fid not in self.core.throws and f.fid not in self.core.loops:
            return super().inline(f, st, fr, i, n, vs, this=this, **kw)
        self.hooks.opaque(self, st, fr, n, f, vs)
        if f.kind != 'dtor':
            s = st.copy()
            self.sink[-1].append((s, 'lib'))
            if len(self.sink[-1]) > 40:
                self.compact_sink()
        for p, v in zip(f.params, vs):
            if '&' in p['t'] and not p['t'].startswith('const') and isinstance(v, L):
                self.havoc(st, tuple(v))
        if f.kind == 'ctor':
            if this is not None:
                self.havoc(st, this)
            return [(st, NOVAL)]
        t = f.d['ret']
        if self.kind(t) in OBJ and '*' not in t:
            loc = self.tmp(fr, i)
            st.kill(loc)
            return [(st, L(loc))]
        if strip_t(t) == 'void':
            return [(st, NOVAL)]
        return [(st, self.fresh_of(t, f.n))]


class H(coredrv.Hooks):
    core = None

    def bad(self, rule, I, fr, n, text):
        self.add(rule, rule, I.where(fr, n), text)

    def on_start(self, I, st):
        st.setghost(S(''), 'caught', 0)
        st.setghost(S(''), 'passes', 0)
        st.setghost(K(0), 'nodm', 0)
        st.setghost(K(0), 'mark', 0)
        st.setghost(K(0), 'work', 0)
        st.setghost(K(0), 'usage', 0)

    def signature(self, I, st):
        return hash(tuple(str(st.ghost(k, 0)) for k in ('caught', 'passes', 'nodm', 'mark', 'work', 'usage')))

    def marked(self, st):
        v = st.ghost('mark', 0)
        return v is not None and v is not K(0)

    def kinds(self, I, f, vs):
        """run types that a call of f works through"""
        for p, v in zip(f.params, vs):
            if 'RUNTYPE' in p['t']:
                return [v]
        return []

    def opaque(self, I, st, fr, n, f, vs):
        if f.fid not in self.core.work:
            return
        if not I.quiet:
            self.site('calls of working functions', I.where(fr, n) + f.n)
        if self.marked(st) and not I.quiet:
            self.bad('the marker comes last', I, fr, n, f'{f.q} runs after the completion marker was written')
        if f.fid in self.core.passes:
            ks = self.kinds(I, f, vs)
            have = set(filter(None, st.ghost('passes', 0).a[0].split(',')))
            for k in ks:
                k = I.load(st, k) if isinstance(k, L) else k
                c = I.iv(st, k).const()
                have.add(self.types.get(int(c), '?') if c is not None else '?')
            st.setghost(S(','.join(sorted(have))), 'passes', 0)

    def on_branch(self, I, st, fr, n, v, truth):
        neg = truth
        while v.op == 'not':
            v, neg = v.a[0], not neg
        # now: neg is whether v itself holds
        if re.search(r'\bdm\b', str(v)) and (neg if v.op == 'cmp' and v.a[0] == '==' else not neg):
            st.setghost(K(1), 'nodm', 0)

    def on_catch(self, I, st, fr, n, t):
        st.setghost(S(I.where(fr, n)), 'caught', 0)

    def on_throw(self, I, st, typ, fr, n):
        if st.ghost('caught', 0) is not None:
            st.setghost(S(''), 'caught', 0)

    def on_open(self, I, st, fr, n, loc, name, d, o):
        if d == 'in':
            return
        if name is not None and name.op == 's' and name.a[0].split('/')[-1] == MARK:
            if not I.quiet:
                self.site('marker writes', I.where(fr, n))
                have = set(filter(None, st.ghost('passes', 0).a[0].split(',')))
                c = st.ghost('caught', 0)
                if c.a[0]:
                    self.bad('no marker after an exception', I, fr, n, f'the marker is written although an exception was caught at {c.a[0]}')
                if 'NRG' not in have:
                    self.bad('the marker follows the passes', I, fr, n, 'the marker is written on a path without the first pass')
                if 'DMNRG' not in have and st.ghost('nodm', 0) is not K(1):
                    self.bad('the marker follows the passes', I, fr, n, 'the marker is written on a path without the second pass although dm is not known to be off')
            st.setghost(K(1), 'mark', 0)
        elif self.marked(st) and not I.quiet:
            self.bad('the marker comes last', I, fr, n, 'a file is opened for writing after the completion marker was written')

    def on_write(self, I, st, fr, n, loc, v, t):
        nm = st.raw(loc + ('#name',)) if loc is not None else None
        if nm is not None and nm.op == 's' and (nm.a[0] in STD or nm.a[0].split('/')[-1] == MARK):
            if nm.a[0] == 'std::cout' and isinstance(v, absint.Term) and v.op == 's' and re.match(r'\s*usage', v.a[0], re.I):
                st.setghost(K(1), 'usage', 0)
            return
        if self.marked(st) and not I.quiet and nm is not None and st.raw(loc + ('#dir',)) is not S('str'):
            self.bad('the marker comes last', I, fr, n, 'output is written after the completion marker')

    def on_exit(self, I, st, status, fr, n, kind):
        pass


class HMain(H):
    def on_call(self, I, st, fr, i, n, name, vs, obj):
        if n.get('n') == 'broadcast':
            return [(st, NOVAL)]  # the value is that of the root on every rank
        f = I.prog.fns.get(n.get('fid'))
        if f is None and n.get('n') in self.workers:
            st.setghost(K(1), 'work', 0)
            s = st.copy()
            I.sink[-1].append((s, 'lib'))
            if not I.quiet:
                self.site('calculations started from main', I.where(fr, n))
            return [(st, NOVAL)]
        return None

    def on_exit(self, I, st, status, fr, n, kind):
        if kind == 'throw':
            return
        if isinstance(status, L):
            status = I.load(st, status)
        if not isinstance(status, absint.Term):
            status = K(0)
        self.count('exits of main')
        if I.decide(st, I.cmpterm('==', status, K(0), 'i')) == 0:
            return
        c = st.ghost('caught', 0)
        if c is not None and c.a[0]:
            self.bad('a failed run has a nonzero status', I, fr, n, f'main can end with status 0 although an exception was caught at {c.a[0]}')
        elif st.ghost('work', 0) is K(0) and st.ghost('usage', 0) is K(0):
            self.bad('a failed run has a nonzero status', I, fr, n, 'main can end with status 0 without having run the calculation')


def general(t):
    return t in ('...', '') or 'std::' in t or 'boost::' in t


def can_complete(f, i):
    """may control reach the end of the handler block?  (syntactic, conservative towards yes)"""
    if i < 0:
        return True
    n = f.N[i]
    k = n['k']
    if k == 'throw' or k in ('call', 'mcall') and n.get('noret'):
        return False
    if k == 'block':
        return all(can_complete(f, c) for c in n.get('c', []))
    if k == 'if':
        return len(n['c']) < 3 or n['c'][2] < 0 or can_complete(f, n['c'][1]) or can_complete(f, n['c'][2])
    if k == 'return':
        return not any(f.N[x]['k'] in ('throw',) for x in n.get('c', []) if x >= 0)
    if k in ('cast', 'tmp', 'cleanups', 'expr', 'call', 'mcall', 'opcall'):
        return all(can_complete(f, c) for c in n.get('c', []) if c >= 0)
    return True


def handlers(rep, P, core, fns):
    for f in fns:
        for n in f.N:
            if n['k'] != 'try':
                continue
            rep.count('try blocks')
            inner = set()
            todo = [n['c'][0]]
            work = False
            while todo:
                x = todo.pop()
                if x < 0:
                    continue
                m = f.N[x]
                g = P.fns.get(m.get('fid'))
                if g is not None and (g.fid in core.throws or g.fid in core.work) and m['k'] in ('call', 'mcall', 'opcall', 'ctor') or m['k'] == 'throw' or m['k'] == 'call' and LAPACK.match(m.get('n', '')):
                    work = True
                if any(y in m.get('t', '') for y in FILES) and m['k'] in ('decl', 'ctor', 'mcall'):
                    work = True
                todo += m.get('c', [])
            for c in n['c'][1:]:
                h = f.N[c]
                t = strip_t(h.get('t', '') or '')
                if 'var' in h and not t:
                    t = strip_t(h['var'].get('t', '')) if isinstance(h['var'], dict) else ''
                rep.count('handlers')
                if general(t) and work and can_complete(f, h['c'][0] if h.get('c') else -1):
                    rep.add(f'swallow:{f.pk}', 'no exception is swallowed', f'{f.file}:{h.get("l", n["l"])}', f'{f.q} goes on after an exception of any kind ({t or "..."}) from code that does the work')


def body(rep):
    rep.rules = ['on every path to the creation of the marker file the first pass was run, and the second unless dm is off; no exception was caught on the path; nothing that works on files or states runs after it, destructors of members included',
                 'the marker is created only in the functions so analysed',
                 'no handler in the core swallows a general exception from code that does the work; nothing ends the run with status 0 early',
                 'main of the solver ends with status 0 only if the calculation was called and returned, or usage was asked for']
    P = coredrv.core_prog()
    core = Core(P)
    types = {int(v): k.split('::')[-1] for k, v in P.enums.items() if 'RUNTYPE::' in k}
    marks = {f.fid for f in core.marks}
    # outermost: functions that reach the marker and are not called by others that do, below constructors
    tops = [P.fns[x] for x in core.upto if not (core.callers.get(x, set()) & core.upto)]
    rep.count('functions that reach the marker', len(core.upto))
    for f in tops:
        h = H(f.q)
        h.core = core
        h.types = types
        I = Interp(P, h, libthrow='all')
        I.core = core
        h.I = I
        I.run_function(f)
        h.count('roots')
        h.count('functions interpreted', len(I.inlined))
        coredrv.merge(rep, h)
    # members of the objects that write the marker are destroyed after it
    holders = {P.fns[x].d.get('clsid') for x in core.upto if P.fns[x].d.get('clsid')}
    seen = set()
    todo = [c for c in P.classes.values() if c['id'] in holders]
    first = {c['id'] for c in todo}
    while todo:
        c = todo.pop()
        if c['id'] in seen:
            continue
        seen.add(c['id'])
        rep.count('classes destroyed after the marker')
        for f in P.fns.values():
            if f.kind == 'dtor' and f.d.get('clsid') == c['id']:
                for g in coredrv.reach(P, [f]).values():
                    if opens(g) or g.fid in core.engine:
                        rep.add(f'dtor:{f.pk}', 'the marker comes last', f'{g.file}:{g.line}', f'{f.q}, run after the marker was written, writes files ({g.q})')
        for x in P.classes.values():
            names = [fl['t'] for fl in c['fields']] + [b['t'] for b in c.get('bases', [])]
            if any(x['t'] in t for t in names) and 'Workdir' not in x['t']:
                todo.append(x)
    allf = coredrv.reach(P, tops)
    handlers(rep, P, core, P.fns.values())
    for f in P.fns.values():
        for n in f.N:
            if n['k'] == 'call' and n.get('n') in ('exit', '_exit', 'quick_exit', '_Exit') and n.get('fid') not in P.fns:
                rep.count('exit calls')
                a = f.N[n['c'][0]]
                while 'cv' not in a and a.get('c'):
                    a = f.N[a['c'][0]]
                if a.get('cv') is not None and int(a['cv']) == 0:
                    rep.add(f'exit:{f.pk}', 'a failed run has a nonzero status', f'{f.file}:{n["l"]}', f'{f.q} ends the run with status 0')
    # main
    M = absint.Prog(common.extract('c++/nrg.cc', common.CFLAGS, ['c++/nrg.cc'], 'nrgmain'))
    for f in M.fns.values():
        if f.q == 'main' or f.n == 'main' and f.kind == 'fn':
            h = HMain('main')
            h.core = core
            h.types = types
            slave = {g.n for g in P.fns.values() if g.kind == 'fn' and 'mpi::communicator' in ' '.join(p['t'] for p in g.params) and g.fid not in core.upto}
            h.workers = {g.n for g in tops} | slave
            I = coredrv.CoreInterp(M, h, libthrow='all')
            h.I = I
            I.run_function(f)
            coredrv.merge(rep, h)
    rep.need('marker writes', 1)
    rep.need('calls of working functions', 2)
    rep.need('exits of main', 1)
    rep.need('calculations started from main', 1)
    return 'Abstract interpretation of every function from which the marker can be written (each call that cannot write it is opaque: it returns anything or throws), and of main; structural rules for exception handlers, early exits and destructors.'


if __name__ == '__main__':
    common.run('C04', body)
