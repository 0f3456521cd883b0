"""Field-based side-effect summaries: which functions can be replaced by 'may write these fields, may throw these types'."""
from absint import strip_t, L, mk, fresh, K, strip_targs

EVENT_CALLS = {'getopt', 'atoi', 'atof', 'atol', 'strtod', 'strtol', 'stod', 'stoi', 'stol', 'stoul', 'exit', 'abort', '_exit', 'quick_exit', 'system', 'getenv', 'fopen', 'fread', 'fwrite',
               'fclose', 'fprintf', 'printf', 'rename', 'remove', 'unlink', 'insert_or_assign', 'what'}
LOOPS = ('for', 'while', 'do', 'rangefor')


class Eff:
    __slots__ = ('fields', 'globals', 'vars', 'throws', 'events', 'calls', 'loop', 'lib', 'size', 'all', 'msgs')

    def __init__(s):
        s.fields, s.globals, s.vars, s.throws, s.calls, s.msgs = set(), set(), set(), set(), set(), set()
        s.events = s.loop = s.lib = s.all = False
        s.size = 0


class Effects:
    def __init__(self, prog, event_calls=(), event_pred=None, stdout_events=False):
        self.stdout_events = stdout_events
        self.prog = prog
        self.ev = EVENT_CALLS | set(event_calls)
        self.pred = event_pred
        self.d = {}
        self.t = {}
        self.lambdas = {f.fid for f in prog.fns.values() if f.kind == 'lambda'}
        self.addr = set()
        for f in prog.fns.values():
            for n in f.N:
                if n['k'] == 'ref' and n.get('dk') == 'func':
                    self.addr.add(n['fid'])

    def of(self, fid):
        """transitive effects"""
        if fid in self.t:
            return self.t[fid]
        seen = set()
        stack = [fid]
        r = Eff()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.prog.fns.get(x)
            if f is None:
                continue
            e = self.direct(f)
            r.fields |= e.fields
            r.globals |= e.globals
            r.vars |= e.vars
            r.throws |= e.throws
            r.msgs |= e.msgs
            r.events |= e.events
            r.loop |= e.loop
            r.lib |= e.lib
            r.all |= e.all
            r.size += e.size
            stack.extend(e.calls)
        self.t[fid] = r
        return r

    def summarisable(self, f):
        e = self.of(f.fid)
        return e.loop and not e.events and not e.all and f.kind != 'ctor'

    def direct(self, f):
        e = self.d.get(f.fid)
        if e is not None:
            return e
        e = self.d[f.fid] = Eff()
        N = f.N
        e.size = len(N)
        kind = self.prog.kind
        for i, n in enumerate(N):
            k = n['k']
            if k in LOOPS:
                e.loop = True
            if k in ('goto', 'delete', 'new'):
                e.events = True
            if k == 'omp':
                e.events = True
            if self.pred is not None and self.pred(f, n):
                e.events = True
            if n.get('thr') and k in ('call', 'mcall', 'opcall', 'ctor'):
                e.lib = True
            if k == 'throw':
                e.throws.add(strip_t(N[n['c'][0]]['t']) if n['c'] else '?')
            elif k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                self.write(f, n['c'][0], e)
            elif k == 'un' and ('++' in n['op'] or '--' in n['op']):
                self.write(f, n['c'][0], e)
            elif k == 'decl':
                for v in n.get('vars', []):
                    if v.get('init') is not None and self.aliasing(v['t']):
                        self.write(f, v['init'], e)
                    if kind(v['t']) == 'stream' and 'stringstream' not in v['t']:
                        e.events = True
            elif k == 'rangefor':
                if self.aliasing(n['var']['t']):
                    self.write(f, n['c'][0], e)
            elif k == 'sub':
                if strip_t(N[n['c'][0]].get('t', '')) in ('char *const *', 'char **', 'char *const []', 'char *[]'):
                    e.events = True
            elif k in ('call', 'mcall', 'opcall', 'ctor'):
                t0 = n.get('t', '')
                if kind(t0) == 'stream' or any(kind(p) == 'stream' for p in n.get('pt', [])) or (n.get('cls') or '').startswith('std::basic_') and 'stream' in n.get('cls', ''):
                    if 'stringstream' not in t0 and not self.strroot(f, n):
                        e.events = True
                if k == 'opcall' and n.get('op') == '<<':
                    a = N[n['c'][1]] if len(n.get('c', [])) > 1 else {}
                    if a.get('k') == 'str' and self.errroot(f, n):
                        e.msgs.add(a.get('v', ''))
                if (n.get('noret') and n.get('fid') not in self.prog.fns) or n.get('n') in self.ev:
                    e.events = True
                if (n.get('n') or '').startswith(('gsl_',)) and ('alloc' in n['n'] or 'free' in n['n'] or 'qag' in n['n']):
                    e.events = True
                g = self.prog.fns.get(n.get('fid'))
                if g is not None:
                    e.calls.add(g.fid)
                elif 'ce' in n or (n.get('cls') == 'std::function'):
                    e.calls |= self.lambdas | self.addr
                else:
                    # library callee: non-const object, non-const reference and pointer arguments
                    cs = n.get('c', [])
                    if k in ('mcall', 'opcall') and n.get('cls') and cs:
                        if not n.get('cm'):
                            self.write(f, cs[0], e)
                        cs = cs[1:]
                    pts = n.get('pt', [])
                    for j, c in enumerate(cs):
                        t = pts[j] if j < len(pts) else ''
                        if self.aliasing(t) or 'iterator' in t:
                            self.write(f, c, e)
                        a = N[c] if c is not None and c >= 0 else {}
                        if a.get('k') == 'lambda':
                            e.calls.add(a['fid'])
            elif k == 'lambda':
                e.calls.add(n['fid'])
        return e

    def strroot(self, f, n, d=0):
        """stream expression rooted in a local string stream, or a bare manipulator"""
        if d > 60:
            return False
        if n['k'] == 'ref':
            return 'stringstream' in n.get('t', '') or (n.get('q') or '') in (('std::cerr', 'std::clog') if self.stdout_events else ('std::cerr', 'std::cout', 'std::clog'))
        if n['k'] in ('call',) and n.get('n') in ('setprecision', 'setw', 'endl', 'flush', 'setfill'):
            return True
        cs = [c for c in n.get('c', []) if c is not None and c >= 0]
        if n['k'] in ('opcall', 'call', 'mcall', 'cast', 'ctor') and cs:
            return self.strroot(f, f.N[cs[0]], d + 1)
        return False

    def errroot(self, f, n):
        while n['k'] in ('opcall', 'call', 'mcall') and n.get('c'):
            n = f.N[n['c'][0]]
        return n['k'] == 'ref' and (n.get('q') or '') in ('std::cerr', 'std::clog')

    def aliasing(self, t):
        t = t.strip()
        if '&&' in t:
            return False
        if 'iterator' in t and not t.startswith('const '):
            return 'const_iterator' not in t
        if t.endswith('&'):
            return not t.startswith('const ')
        if t.endswith('*') or t.endswith('*const') or t.endswith('*__restrict'):
            return not t.startswith('const ')
        return False

    def write(self, f, i, e, d=0):
        if i is None or i < 0 or d > 30:
            return
        n = f.N[i]
        k = n['k']
        if k == 'ref':
            dk = n['dk']
            if dk in ('global', 'slocal'):
                q = n.get('q') or n['n']
                e.globals.add(q if dk == 'global' else f"{q}@{n['d']}")
            elif dk in ('var', 'param', 'binding'):
                e.vars.add(n['d'])
            return
        if k == 'mem':
            if n.get('dk') == 'global':
                e.globals.add(n.get('q') or n['m'])
                return
            # library members (pair.first) belong to their container
            bt = strip_t(f.N[n['c'][0]].get('t', ''))
            if bt.endswith('*'):
                bt = strip_t(bt[:-1])
            if bt in self.prog.classes:
                e.fields.add(n['m'])
            else:
                self.write(f, n['c'][0], e, d + 1)
            return
        if k in ('call',) and self.prog.fns.get(n.get('fid')) is not None and ('&' in n.get('t', '') or '*' in n.get('t', '')):
            e.all = True
            return
        if k in ('int', 'flt', 'str', 'bool', 'null', 'lambda', 'sizeof', 'char'):
            return
        if k == 'this':
            return
        if k == 'mcall' and self.prog.fns.get(n.get('fid')) is not None:
            if '&' in n.get('t', '') or '*' in n.get('t', ''):
                e.all = True
            return
        for c in n.get('c', []):
            self.write(f, c, e, d + 1)

    # -- applying a summary
    def apply(self, I, f, st, fr, i, n, vs, this):
        e = self.of(f.fid)
        for b in list(st.env):
            if b[0] == 'g' and b[1] in e.globals and b[1] not in ('std::cerr', 'std::cout', 'std::clog'):
                I.havoc(st, (b,))
                continue
            if b[0] == 'v' and b[1] in e.vars:
                r = st.raw((b, '#ref'))
                if r is not None:
                    if r.op == 'addr':
                        I.havoc(st, r.a[0])
                    continue
                I.havoc(st, (b,))
                continue
            d = st.env[b]
            if e.fields:
                hit = {k[:j + 1] for k in d for j, x in enumerate(k) if isinstance(x, str) and x in e.fields}
                for k in hit:
                    if st.raw((b,) + k + ('#ref',)) is not None:
                        continue
                    I.havoc(st, (b,) + k)
        for j, p in enumerate(f.params):
            if j < len(vs) and self.aliasing(p['t']):
                v = vs[j]
                if isinstance(v, L):
                    I.havoc(st, tuple(v))
                elif v.op in ('addr', 'it'):
                    I.havoc(st, v.a[0])
        I.hook('on_summary', st, fr, n, f, e)
        if I.quiet == 0 or True:
            for t in sorted(e.throws):
                I.throw(st.copy(), t, fr, n)
        if e.lib and I.libthrow and (I.try_depth > 0 or I.libthrow == 'all'):
            I.sink[-1].append((st.copy(), 'lib'))
        ret = f.d['ret']
        if I.kind(ret) in ('void',) or ret == 'void':
            return [(st, K(0))]
        from absint import OBJ
        if I.kind(ret) in OBJ and '&' not in ret:
            loc = I.tmp(fr, i)
            I.havoc(st, loc)
            return [(st, L(loc))]
        return [(st, I.fresh_of(ret, f.n))]
