"""T13: no tool result depends on time, random numbers, the environment, addresses, unordered iteration, earlier runs or uninitialised variables."""
import re

import common
import tooldrv
from terms import S, K, Term, isnum, fresh
from absint import L, strip_t, mk, strip_targs
from T07 import labelled
from defassign import maybe_unset

SRC = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'times', 'getrusage', 'localtime', 'gmtime', 'ctime', 'rand', 'random', 'rand_r', 'drand48', 'lrand48', 'mrand48', 'erand48', 'arc4random', 'getrandom',
       'getenv', 'secure_getenv', 'getpid', 'getppid', 'gettid', 'getuid', 'gethostname', 'uname', 'getcwd', 'getlogin', 'tmpnam', 'tempnam', 'mkstemp', 'mkdtemp', 'tmpfile', 'isatty', 'sysconf', 'sbrk',
       'current_path', 'temp_directory_path', 'last_write_time', 'file_size_on_disk', 'hardware_concurrency', 'omp_get_max_threads', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_wtime', 'get_id', 'popen',
       'sched_getcpu', 'get_nprocs', '__rdtsc'}
SRCCLS = re.compile(r'(_clock::now|random_device|thread::(get_id|hardware_concurrency)|directory_iterator)')
UNORD = re.compile(r'^(const )?std::(__\w+::)?(unordered_(multi)?(map|set)\b|(multi)?(map|set)<[^<>,]*\*)')
DAS = {}
SCALAR = re.compile(r'^(unsigned |signed )?(int|long|double|float|bool|char|short|long double|size_t|std::size_t)( (int|long))*( ?\[\d+\])?$')
OUTMODE = {'app', 'ate'}


def sub(t, d=0):
    yield t
    if d < 10:
        for x in t.a:
            if isinstance(x, Term):
                yield from sub(x, d + 1)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        yield from sub(y, d + 1)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Term):
                                yield from sub(z, d + 1)


class H(tooldrv.Hooks):
    def __init__(self, tool):
        super().__init__(tool)
        self.t = {}         # term -> why it is not determined by the input
        self.memo = {}
        self.unord = {}     # container locations that are iterated in an unspecified order
        self.ver = 0
        self.names = {}
        self.rd = {}

    # ---- the origin of a value
    def why(self, v):
        if not isinstance(v, Term):
            return None
        m = self.memo.get(v)
        if m is not None and m[0] == self.ver:
            return m[1]
        r = None
        for x in sub(v):
            r = self.t.get(x)
            if r is None and x.op == 'uninit':
                r = ('uninit', f'the variable {self.nm(x.a[0])}, which is never set on some path')
            if r is None and x.op == 'fn' and x.a[0] == 'ptrint':
                r = ('addr', 'an address')
            if r is None and x.op == 'it':
                r = self.inunord(x.a[0])
            if r is not None:
                break
        self.memo[v] = (self.ver, r)
        return r

    def taint(self, v, r):
        if isinstance(v, Term) and v not in self.t and not isnum(v):
            self.t[v] = r
            self.ver += 1

    def nm(self, loc):
        x = [str(y) for y in loc if isinstance(y, str)]
        if x:
            return '.'.join(x)
        b = loc[0]
        if isinstance(b, tuple) and b[0] == 'v':
            if not self.names:
                self.names = {v['id']: v['n'] for f in self.I.prog.fns.values() for n in f.N if n['k'] == 'decl' for v in n['vars']}
            return self.names.get(b[1], '?')
        return str(b[1] if isinstance(b, tuple) and len(b) > 1 else b)

    def inunord(self, loc):
        if self.unord and isinstance(loc, tuple):
            for k in range(1, len(loc) + 1):
                if loc[:k] in self.unord:
                    return self.unord[loc[:k]]
        return None

    def loc_why(self, st, loc):
        for k in range(1, len(loc) + 1):
            x = st.raw(loc[:k] + ('#nd',))
            if x is not None and x.op == 's':
                return tuple(x.a[0].split('|', 1))
        return None

    def of(self, st, v):
        if isinstance(v, L):
            r = self.loc_why(st, tuple(v))
            if r is None:
                t = st.raw(tuple(v))
                r = self.why(t) if t is not None else None
            if r is None:
                b = st.raw(tuple(v) + ('#buf',))
                r = self.why(b) if b is not None else None
            if r is None:
                for p, x in st.subs(tuple(v)):
                    if p and p[-1] not in ('#size', '#sorted', '#ep', '#ok', '#io', '#new', '#dir', '#name') and x.op != 'uninit':
                        r = self.why(x)
                        if r is not None:
                            break
            return r
        return self.why(v)

    # ---- sources
    def prepare(self, I):
        unknown = I.unknown
        scalar_ctor = I.scalar_ctor

        def unk(i, n, st, fr, vs, obj):
            r = None
            for v in list(vs) + ([obj] if obj is not None else []):
                r = r or self.of(st, v)
            out = unknown(i, n, st, fr, vs, obj)
            if r is not None:
                pts = n.get('pt', [])
                for s, v in out:
                    self.mark(s, v, r)
                    if obj is not None and not n.get('cm'):
                        self.mark(s, obj, r)
                    for j, a in enumerate(vs):
                        t = pts[j] if j < len(pts) else ''
                        if isinstance(a, L) and '&' in t and not t.startswith('const ') and '&&' not in t:
                            self.mark(s, a, r)
            return out
        I.unknown = unk

    def mark(self, st, v, r):
        if isinstance(v, L):
            st.put(tuple(v) + ('#nd',), S('|'.join(r)))
        else:
            self.taint(v, r)

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        nm = n.get('n', '')
        full = strip_targs(name)
        if nm in SRC and (not n.get('cls') or full.startswith('std::')) or SRCCLS.search(full):
            if nm in ('time', 'getcwd') and I.prog.fns.get(n.get('fid')) is not None:
                return None
            self.site('sources outside the input', I.where(fr, n))
            r = ('source', f'{nm or full}()')
            out = []
            v = I.result(i, n, st, fr)
            self.mark(st, v, r)
            for a in vs:
                t = a if not isinstance(a, L) else st.raw(tuple(a))
                if isinstance(t, Term) and t.op == 'addr':
                    I.havoc(st, t.a[0])
                    st.put(t.a[0] + ('#nd',), S('|'.join(r)))
            return [(st, v)]
        if nm in ('begin', 'cbegin', 'rbegin') and obj is not None and isinstance(obj, L):
            c = fr.fn.N[n['c'][0]] if n.get('c') else {}
            if UNORD.match(strip_t(c.get('t', ''))) or 'unordered_' in n.get('cls', ''):
                loc = self.deref(I, st, obj)
                self.unord.setdefault(loc, ('order', 'the order of an unordered container'))
                self.ver += 1
        if nm == 'setlocale' and vs or full.startswith('std::locale::locale') and vs:
            a = vs[-1] if nm == 'setlocale' else vs[0]
            t = I.load(st, a, fr, n) if isinstance(a, L) else a
            if t is S('') and not I.quiet:
                self.add(f'locale:{fr.fn.q}', 'the locale of the environment is not used', I.where(fr, n), 'the locale of the environment is used to read and write numbers')
        return None

    def deref(self, I, st, v):
        loc = tuple(v)
        r = st.raw(loc + ('#ref',))
        return r.a[0] if r is not None and r.op == 'addr' else loc

    def on_range_iter(self, I, st, fr, n, src, k):
        c = fr.fn.N[n['c'][0]]
        if src is not None and UNORD.match(strip_t(c.get('t', ''))):
            self.site('iterations in an unspecified order', I.where(fr, n))
            self.unord.setdefault(tuple(src), ('order', 'the order of an unordered container'))
            self.ver += 1

    def on_elemload(self, st, loc, t):
        r = self.inunord(loc) if self.unord else None
        if r is not None and self.why(t) is None:
            self.taint(t, r)

    def on_load(self, st, loc):
        t = st.raw(loc)
        if t is None or t.op not in ('uninit', 'k', 's'):
            r = self.loc_why(st, loc)
            if r is not None and len(loc) and not str(loc[-1]).startswith('#'):
                self.taint(st.get(loc), r)

    def on_phi(self, p, vals, weak):
        for v in vals:
            if isinstance(v, Term) and v is not p:
                if v.op == 'uninit' and (weak or '#elem' in v.a[0]):
                    continue
                r = self.why(v)
                if r is not None:
                    self.taint(p, r)
                    return

    def on_sort(self, I, st, fr, n, loc, full):
        if full:
            for p, x in st.subs(loc + ('#elem',)):
                r = self.why(x)
                if r is not None and r[0] == 'order':
                    st.put(loc + ('#elem',) + p, fresh('sorted'))

    # ---- sinks
    def bad(self, I, st, fr, n, v, what, branch=False):
        if I.quiet:
            return
        r = self.of(st, v)
        if r is None or branch and r[0] == 'order':
            return
        self.add(f'{what}:{fr.fn.q}:{r[0]}', f'no value that is not determined by the input reaches a result', I.where(fr, n), f'{what} depends on {r[1]}')

    def on_uninit_read(self, I, st, fr, n, loc):
        if not I.quiet:
            self.add(f'uninit:{fr.fn.q}:{self.nm(loc)}', 'every variable is set before it is read', I.where(fr, n), f'{self.nm(loc)} is read although it was never set')

    def on_write(self, I, st, fr, n, loc, v, t):
        if I.quiet:
            return
        d = st.raw(loc + ('#dir',))
        if d is S('str'):
            r = self.of(st, v)
            if r is not None:
                st.put(loc + ('#nd',), S('|'.join(r)))
            return
        nm = st.raw(loc + ('#name',))
        if nm in (S('std::cerr'), S('std::clog')):
            return
        self.site('values written', I.where(fr, n))
        r = self.of(st, v)
        if r is not None and r[0] == 'source' and d is S('std') and labelled(fr, n):
            return
        tt = t.strip()
        if tt.endswith('*') and 'char' not in tt and 'void (' not in tt:
            self.add(f'address:{fr.fn.q}', 'no value that is not determined by the input reaches a result', I.where(fr, n), 'an address is written')
        self.bad(I, st, fr, n, v, 'the output')

    def on_rawwrite(self, I, st, fr, n, loc, *a):
        for v in a:
            if isinstance(v, Term) and v.op == 'addr':
                t = st.raw(v.a[0])
                if t is not None and t.op == 'uninit' and not I.quiet:
                    self.on_uninit_read(I, st, fr, n, v.a[0])
                self.bad(I, st, fr, n, L(v.a[0]), 'the output')
            elif isinstance(v, (Term, L)):
                self.bad(I, st, fr, n, v, 'the output')

    def on_branch(self, I, st, fr, n, v, b):
        self.bad(I, st, fr, n, v, 'a decision', True)

    def on_index(self, I, st, fr, n, loc, idx):
        if isinstance(idx, Term):
            self.bad(I, st, fr, n, idx, 'an index')

    def on_exit(self, I, st, status, fr, n, kind):
        if isinstance(status, Term) and fr is not None and not I.quiet:
            r = self.why(status)
            if r is not None:
                self.add(f'exit:{fr.fn.q}', 'the exit status is determined by the input', I.where(fr, n), f'the exit status depends on {r[1]}')

    def reads(self, I, f):
        """names of the class members that f and its callees mention"""
        r = self.rd.get(f.fid)
        if r is None:
            r = self.rd[f.fid] = set()
            seen, todo = set(), [f.fid]
            while todo:
                x = todo.pop()
                g = I.prog.fns.get(x)
                if x in seen or g is None:
                    continue
                seen.add(x)
                r |= {n['m'] for n in g.N if n['k'] == 'mem'}
                todo += I.effects.direct(g).calls
        return r

    def on_summary(self, I, st, fr, n, f, e):
        names = self.reads(I, f) - e.fields
        for b, d in st.env.items():
            for k, v in (d or {}).items():
                if v.op == 'uninit' and k and k[-1] in names:
                    self.on_uninit_read(I, st, fr, n, (b,) + k)

    def on_open(self, I, st, fr, n, loc, name, d, o):
        if d == 'in':
            return
        self.site('output files opened', I.where(fr, n))
        if I.quiet:
            return
        app = False
        todo = list(n.get('c', []))
        while todo:
            c = todo.pop()
            if c is None or c < 0:
                continue
            x = fr.fn.N[c]
            if x['k'] == 'ref' and x.get('n') in OUTMODE and ('ios' in str(x.get('q', '')) or True):
                app = True
            elif x['k'] == 'mem' and x.get('m') in OUTMODE:
                app = True
            elif x['k'] == 'str' and n.get('n') == 'fopen' and x.get('v', '')[:1] == 'a':
                app = True
            todo += x.get('c', [])
        key = ('opened', str(name))
        if app and not st.ghost(*key):
            self.add(f'append:{fr.fn.q}', 'a result file does not depend on earlier runs', I.where(fr, n), 'a result file is opened for appending: its contents depend on earlier runs')
        if not app:
            st.setghost(K(1), *key)
        r = self.why(name)
        if r is not None:
            self.add(f'name:{fr.fn.q}', 'result files have names that are determined by the input', I.where(fr, n), f'the name of a result file depends on {r[1]}')


def pred(f, n):
    if n['k'] in ('call', 'mcall', 'opcall', 'ctor'):
        nm = n.get('n', '')
        return nm in SRC or bool(SRCCLS.search(strip_targs(n.get('cls', '')) + '::' + nm)) or 'unordered_' in n.get('cls', '')
    if n['k'] == 'decl' and any('init' not in v and SCALAR.match(v.get('t', '')) for v in n.get('vars', [])):
        # functions where a syntactic argument shows that every variable is set need not be interpreted
        k = f.fid
        if k not in DAS:
            DAS[k] = bool(maybe_unset(f)) or any('[' in v.get('t', '') for m in f.N if m['k'] == 'decl' for v in m.get('vars', []))
        return DAS[k]
    return n['k'] == 'rangefor' and bool(UNORD.match(strip_t(f.N[n['c'][0]].get('t', ''))))


def body(rep):
    rep.rules = ['no value from a clock, random numbers, the environment, an address, an unordered container or a variable that was not set is written, decides a branch or is an index (texts with a label on the standard output excepted)',
                 'no result file is opened for appending unless the same run created it']
    tooldrv.run_tools(rep, H, eff={'event_pred': pred, 'stdout_events': True})
    rep.need('values written', 60)
    rep.need('output files opened', 8)
    return 'Abstract interpretation with the origin of values (taint) as part of the terms; obligation at every insertion into an output stream, every undetermined branch, every index and every opening of an output file.'


if __name__ == '__main__':
    common.run('T13', body)
