"""Definite assignment of scalar local variables (structured, flow-sensitive, over the syntax tree)."""
import re

SCALAR = re.compile(r'^(unsigned |signed )?(int|long|double|float|bool|char|short|long double|long long|unsigned|size_t|std::size_t)( (int|long))*$')
TOP = None  # unreachable: everything counts as assigned


def meet(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


class DA:
    def __init__(self, f):
        self.f, self.N = f, f.N
        self.trk = {}
        self.bad = {}
        for n in f.N:
            if n['k'] == 'decl':
                for v in n.get('vars', []):
                    if 'init' not in v and SCALAR.match(v.get('t', '').replace('const ', '')) and not v.get('static'):
                        self.trk[v['id']] = v['n']
        self.ok = True

    def run(self):
        if not self.trk or self.f.body is None:
            return []
        if any(n['k'] in ('goto', 'label') for n in self.N):
            return [(self.N[0].get('l', 0), 'goto')]
        self.stmt(self.f.body, frozenset(), None)
        return sorted(self.bad)

    # ---- expressions -> assigned set (and for conditions the sets for true / false)
    def use(self, n):
        self.bad[(n.get('l', 0), n['n'])] = True

    def cond(self, i, s):
        if i is None or i < 0:
            return s, TOP
        n = self.N[i]
        if 'cv' in n or n['k'] == 'bool':
            c = n.get('cv', n.get('v'))
            s = self.ex(i, s)
            return (s, TOP) if c else (TOP, s)
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            t, f = self.cond(n['c'][0], s)
            if n['op'] == '&&':
                t2, f2 = self.cond(n['c'][1], t)
                return t2, meet(f, f2)
            t2, f2 = self.cond(n['c'][1], f)
            return meet(t, t2), f2
        if n['k'] == 'un' and n['op'] == '!':
            t, f = self.cond(n['c'][0], s)
            return f, t
        s = self.ex(i, s)
        return s, s

    def ex(self, i, s):
        if i is None or i < 0 or s is TOP:
            return s
        n = self.N[i]
        k = n['k']
        if k == 'ref':
            d = n.get('d')
            if d in self.trk and d not in s:
                if n.get('rv'):
                    self.use(n)
                return s | {d}
            return s
        if k == 'lambda':
            return s
        if k == 'sizeof':
            return s
        if k == 'bin':
            op = n['op']
            if op == '=':
                s = self.ex(n['c'][1], s)
                return self.ex(n['c'][0], s)  # the target itself is not read
            if op in ('&&', '||'):
                a, b = self.cond(i, s)
                return meet(a, b)
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                s = self.ex(n['c'][1], s)
                t = self.N[n['c'][0]]
                if t['k'] == 'ref' and t.get('d') in self.trk and s is not TOP and t['d'] not in s:
                    self.use(t)
                return self.ex(n['c'][0], s)
        if k == 'un' and ('++' in n['op'] or '--' in n['op']):
            t = self.N[n['c'][0]]
            if t['k'] == 'ref' and t.get('d') in self.trk and t['d'] not in s:
                self.use(t)
        if k == 'cond':
            a, b = self.cond(n['c'][0], s)
            return meet(self.ex(n['c'][1], a), self.ex(n['c'][2], b))
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            cs = n.get('c', [])
            pt = n.get('pt', [])
            off = 1 if k in ('mcall', 'opcall') and len(cs) > len(pt) else 0
            for j, c in enumerate(cs):
                if c is not None and c >= 0 and s is not TOP:
                    x = self.N[c]
                    t = pt[j - off] if 0 <= j - off < len(pt) else ''
                    if x['k'] == 'ref' and not x.get('rv') and t.startswith('const ') and t.endswith('&') and x.get('d') in self.trk and x['d'] not in s:
                        self.use(x)
                s = self.ex(c, s)
            if n.get('noret'):
                return TOP
            return s
        if k == 'throw':
            for c in n.get('c', []):
                s = self.ex(c, s)
            return TOP
        for c in n.get('c', []):
            s = self.ex(c, s)
        return s

    # ---- statements; J collects the states at break and continue
    def stmt(self, i, s, J):
        if i is None or i < 0 or s is TOP:
            return s
        n = self.N[i]
        k = n['k']
        if k in ('block', 'label'):
            for c in n.get('c', []):
                s = self.stmt(c, s, J)
            return s
        if k == 'decl':
            for v in n.get('vars', []):
                if v.get('init') is not None:
                    s = self.ex(v['init'], s)
                elif v['id'] in self.trk and s is not TOP:
                    s = s - {v['id']}
            return s
        if k == 'if':
            for key in ('init', 'cvar'):
                if n.get(key) is not None:
                    s = self.stmt(n[key], s, J)
            a, b = self.cond(n['c'][0], s) if not n.get('constexpr') else (s, s)
            e = n['c'][2] if len(n['c']) > 2 else -1
            return meet(self.stmt(n['c'][1], a, J), self.stmt(e, b, J))
        if k in ('for', 'while', 'do', 'rangefor'):
            L = {'b': TOP, 'c': TOP}
            if k == 'for':
                s = self.stmt(n['c'][0], s, J)
                a, b = self.cond(n['c'][1], s)
                x = meet(self.stmt(n['c'][3], a, L), L['c'])
                x = self.ex(n['c'][2], x)
                self.cond(n['c'][1], x)
                return meet(b, L['b'])
            if k == 'while':
                if n.get('cvar') is not None:
                    s = self.stmt(n['cvar'], s, J)
                a, b = self.cond(n['c'][0], s)
                x = meet(self.stmt(n['c'][1], a, L), L['c'])
                self.cond(n['c'][0], x)
                return meet(b, L['b'])
            if k == 'do':
                x = meet(self.stmt(n['c'][0], s, L), L['c'])
                a, b = self.cond(n['c'][1], x)
                return meet(b, L['b'])
            if n.get('init') is not None:
                s = self.stmt(n['init'], s, J)
            s = self.ex(n['c'][0], s)
            self.stmt(n['c'][1], s, L)
            return meet(s, L['b'])
        if k == 'switch':
            if n.get('init') is not None:
                s = self.stmt(n['init'], s, J)
            s = self.ex(n['c'][0], s)
            L = {'b': TOP, 'c': TOP, 's': s, 'd': False}
            x = self.stmt_switch(n['c'][1], s, L)
            if J is not None:
                J['c'] = meet(J['c'], L['c'])
            r = meet(x, L['b'])
            return r if L['d'] else meet(r, s)
        if k in ('case', 'default'):
            if J is not None and 's' in J:
                s = meet(s, J['s'])
                if k == 'default':
                    J['d'] = True
            return self.stmt(n['c'][-1], s, J)
        if k == 'break':
            if J is not None:
                J['b'] = meet(J['b'], s)
            return TOP
        if k == 'continue':
            if J is not None:
                J['c'] = meet(J['c'], s)
            return TOP
        if k == 'return':
            for c in n.get('c', []):
                self.ex(c, s)
            return TOP
        if k == 'try':
            x = self.stmt(n['c'][0], s, J)
            for c in n['c'][1:]:
                x = meet(x, self.stmt(c, s, J))
            return x
        if k == 'catch':
            return self.stmt(n['c'][0], s, J)
        if k == 'omp':
            for c in n.get('c', []):
                s = self.stmt(c, s, J)
            return s
        return self.ex(i, s)

    def stmt_switch(self, i, s, L):
        n = self.N[i]
        if n['k'] != 'block':
            return self.stmt(i, s, L)
        x = TOP  # the code before the first case is unreachable
        for c in n.get('c', []):
            m = self.N[c] if c is not None and c >= 0 else {}
            if m.get('k') in ('case', 'default'):
                x = L['s'] if x is TOP else x & L['s']
                if m['k'] == 'default':
                    L['d'] = True
            x = self.stmt(c, x, L)
        return x


def maybe_unset(f):
    return DA(f).run()
