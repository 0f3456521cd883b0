"""Sequences of items that a function moves through an archive (or message stream), taken from the syntax trees.

A trace is a list of
  ('item', type, target, no)      one value; target: path relative to the outermost object, or None
  ('loop', bound, trace)          repeated; bound: ('item', no) | ('size', path) | None
  ('alt', cond, trace, trace)     conditional
"""
import re

import astu
from absint import strip_t, strip_targs


def norm_t(t):
    t = strip_t(t)
    return {'unsigned long': 'size_t', 'unsigned long long': 'size_t'}.get(t, t)


class Tracer:
    """is_arch(type) tells which objects carry the items; ops: operators that move an item"""
    MAXD = 12

    def __init__(self, P, is_arch, ops=('<<', '>>', '&')):
        self.P, self.is_arch, self.ops = P, is_arch, ops
        self.no = 0
        self.emitted = {}     # canonical text of an emitted size -> item number
        self.problems = []
        self.visited = set()
        self.loops = 0
        self.dims, self.lb, self.bad = {}, {}, []

    # -- environments: {decl id: ('path', p) | ('item', no) | ('loop', k) | ('expr', fn, node, env)}
    def path(self, f, i, env, depth=0):
        """canonical text of an object expression, or None"""
        if depth > 20 or i is None or i < 0:
            return None
        n = f.N[i]
        k = n['k']
        if k == 'this':
            return env.get('this')
        if k == 'un' and n['op'] in ('*', '&'):
            return self.path(f, n['c'][0], env, depth + 1)
        if k == 'ref':
            b = env.get(n['d'])
            if b is None:
                return None
            if b[0] == 'path':
                return b[1]
            if b[0] == 'loop':
                return f'#{b[1]}'
            if b[0] == 'item':
                return f'item{b[1]}'
            if b[0] == 'expr':
                return self.path(b[1], b[2], b[3], depth + 1)
            return None
        if k == 'mem':
            b = self.path(f, n['c'][0], env, depth + 1) if n.get('c') else env.get('this')
            return None if b is None else (b + '.' + n['m']).lstrip('.')
        if k == 'sub' or k == 'opcall' and n['op'] in ('[]', '()'):
            ps = [self.path(f, x, env, depth + 1) for x in n['c']]
            if ps[0] is None:
                return None
            if any(p is None or not p.startswith('#') for p in ps[1:]):
                return ps[0] + '[]'
            return ps[0] + '[' + ','.join(ps[1:]) + ']'
        if k == 'int':
            return str(n.get('v'))
        if k == 'mcall' and n['n'] in ('at', 'coeff', 'coeffRef', 'operator()', 'operator[]'):
            ps = [self.path(f, x, env, depth + 1) for x in n['c']]
            if ps[0] is None:
                return None
            if any(p is None or not p.startswith('#') for p in ps[1:]):
                return ps[0] + '[]'
            return ps[0] + '[' + ','.join(ps[1:]) + ']'
        if k in ('mcall', 'call') and len(n.get('c', [])) == 1:
            g = self.P.fns.get(n.get('fid'))
            b = self.path(f, n['c'][0], env, depth + 1)
            if b is None:
                return None
            # a project accessor that just returns something about its argument
            if g is not None and depth < 8:
                r = [m for m in g.N if m['k'] == 'return' and m.get('c')]
                if len(r) == 1:
                    e2 = {'this': b} if k == 'mcall' else {g.params[0]['id']: ('path', b)} if g.params else {}
                    x = self.path(g, r[0]['c'][0], e2, depth + 1)
                    if x is not None:
                        return x
            return f'{n["n"]}({b})'
        if k == 'cast' or k == 'ctor' and len(n.get('c', [])) == 1 and (n.get('copy') or n.get('move')):
            return self.path(f, n['c'][0], env, depth + 1)
        return None

    def arch(self, f, i):
        """does the expression denote the archive (possibly after a chain of operators)?"""
        return i is not None and i >= 0 and self.is_arch(f.N[i].get('t', ''))

    def item(self, f, i, env, t=None):
        n = f.N[i]
        no = self.no
        self.no += 1
        p = self.path(f, i, env)
        if p is not None:
            self.emitted[p] = no
        while n['k'] == 'un' and n['op'] in ('*', '&') or n['k'] == 'ref' and env.get(n['d'], ('',))[0] == 'expr' and env[n['d']][1] is f:
            if n['k'] == 'ref':
                break
            break
        if n['k'] == 'ref' and n.get('dk') in ('var', 'param'):
            env[n['d']] = ('item', no) if env.get(n['d'], ('local',))[0] in ('local', 'item') else env[n['d']]
        return [('item', norm_t(t or n.get('t', '')), p if p is None or not p.startswith('item') else None, no)]

    def assign_target(self, f, i, env, tr):
        if len(tr) == 1 and tr[0][0] == 'item':
            p = self.path(f, i, env)
            m = re.fullmatch(r'(\?\w+)\[#(\d+),#(\d+)\]', p or '')
            if m and m.group(1) in self.dims:
                for want, k in zip(self.dims[m.group(1)], (m.group(2), m.group(3))):
                    have = self.lb.get(int(k))
                    if have and have[0] == 'item' and have != want:
                        self.bad.append((f, f.N[i], 'the elements are read in loops that do not match the dimensions of the matrix'))
            return [('item', tr[0][1], p, tr[0][3])]
        return tr

    def ex(self, f, i, env, depth):
        """trace of a node"""
        if i is None or i < 0:
            return []
        n = f.N[i]
        k = n['k']
        if k == 'lambda':
            return []
        if k == 'opcall' and n['op'] in self.ops and len(n['c']) == 2 and self.arch(f, n['c'][0]):
            l = self.ex(f, n['c'][0], env, depth)
            r = self.ex(f, n['c'][1], env, depth)
            return l + r + self.item(f, n['c'][1], env)
        if k == 'decl':
            tr = []
            for v in n['vars']:
                x = v.get('init')
                sub = []
                if isinstance(x, int) and x >= 0:
                    sub = self.ex(f, x, env, depth)
                    tr += sub
                if v.get('bind'):
                    continue
                if sub and len(sub) == 1 and sub[0][0] == 'item':
                    env[v['id']] = ('item', sub[0][3])
                elif isinstance(x, int) and x >= 0 and not sub and (v.get('ref') or v.get('const') or v.get('constexpr')):
                    env[v['id']] = ('expr', f, x, dict(env))
                elif norm_t(v['t']) == self.objt:
                    env[v['id']] = ('path', '')
                elif self.P.classes.get(strip_t(v['t'])) is not None or 'Matrix' in v['t']:
                    env[v['id']] = ('path', '?' + v['n'])
                    self.dims.pop('?' + v['n'], None)
                    if isinstance(x, int) and x >= 0:
                        args = [f.N[y] for y in f.N[x].get('c', [])] if f.N[x]['k'] in ('ctor', 'call', 'cast') else []
                        if len(args) == 1 and args[0]['k'] == 'ctor':
                            args = [f.N[y] for y in args[0].get('c', [])]
                        ps = [self.bound(f, y, env) for y in (f.N[x].get('c', []) if len(args) == 2 else [])]
                        if len(ps) == 2 and all(q and q[0] == 'item' for q in ps):
                            self.dims['?' + v['n']] = ps
                else:
                    env[v['id']] = ('local',)
            return tr
        if (k == 'bin' or k == 'opcall') and n['op'] == '=':
            r = self.ex(f, n['c'][1], env, depth)
            l = self.ex(f, n['c'][0], env, depth)
            if not l and r:
                N = f.N[n['c'][0]]
                if len(r) == 1 and r[0][0] == 'item' and N['k'] == 'ref':
                    if env.get(N['d'], ('local',))[0] == 'local':
                        env[N['d']] = ('item', r[0][3])
                r = self.assign_target(f, n['c'][0], env, r)
            return r + l
        if k == 'if':
            tr = self.ex(f, n.get('init', -1), env, depth) + self.ex(f, n['c'][0], env, depth)
            if n.get('constexpr'):
                cv = f.N[n['c'][0]].get('cv', f.N[n['c'][0]].get('v'))
                if cv is not None:
                    return tr + self.ex(f, n['c'][1] if cv else n['c'][2], env, depth)
            a, b = self.ex(f, n['c'][1], dict(env), depth), self.ex(f, n['c'][2], dict(env), depth)
            if a or b:
                tr.append(('alt', None, a, b))
            return tr
        if k == 'rangefor':
            e2 = dict(env)
            tr = self.ex(f, n['c'][0], env, depth)
            self.loops += 1
            me = self.depth_
            rn = f.N[n['c'][0]]
            bound = None
            isrange = rn['k'] in ('call',) and rn['n'] in ('range0', 'irange', 'iota', 'range1')
            if isrange:
                args = rn['c']
                e2[n['var']['id']] = ('loop', me)
                bound = self.bound(f, args[-1], env)
            else:
                p = self.path(f, n['c'][0], env)
                if p is not None:
                    bound = ('size', p)
                    if f'size({p})' in self.emitted:
                        bound = ('item', self.emitted[f'size({p})'])
                    e2[n['var']['id']] = ('path', p + '[]')
                    bs = n.get('bind') or []
                    if len(bs) == 2:
                        e2[bs[0]['id']] = ('path', p + '[].first')
                        e2[bs[1]['id']] = ('path', p + '[]')
            self.lb[me] = bound
            self.depth_ += 1
            sub = self.ex(f, n['c'][1], e2, depth)
            self.depth_ -= 1
            return tr + ([('loop', bound, sub)] if sub else [])
        if k in ('for', 'while', 'do'):
            e2 = dict(env)
            tr, bound = [], None
            me = self.depth_
            if k == 'for':
                tr += self.ex(f, n['c'][0], e2, depth)
                ini = f.N[n['c'][0]] if n['c'][0] >= 0 else None
                cnd = f.N[n['c'][1]] if n['c'][1] >= 0 else None
                if ini and ini['k'] == 'decl' and len(ini['vars']) == 1:
                    v = ini['vars'][0]
                    x = v.get('init')
                    e2[v['id']] = ('loop', me)
                    if cnd and cnd['k'] in ('bin', 'opcall', 'rwbin') and cnd['op'] in ('<', '!=') and isinstance(x, int) and x >= 0 and f.N[x].get('cv', f.N[x].get('v')) == 0:
                        bound = self.bound(f, cnd['c'][1], env)
            elif k == 'while':
                tr += self.ex(f, n['c'][0], e2, depth)
            self.lb[me] = bound
            self.depth_ += 1
            sub = self.ex(f, astu.body_of(n), e2, depth)
            self.depth_ -= 1
            return tr + ([('loop', bound, sub)] if sub else [])
        # calls: arguments first, then the body of a project function that gets the archive
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            tr = []
            for x in n.get('c', []):
                tr += self.ex(f, x, env, depth)
            args = n.get('c', [])
            off = 1 if k == 'mcall' or k == 'opcall' and n.get('cls') else 0
            passes = [x for x in args[off:] if self.arch(f, x)]
            g = self.P.fns.get(n.get('fid'))
            if passes and g is None and n.get('pk'):
                # an instantiation that was not extracted: one value of the type it returns
                if norm_t(n.get('t', '')) not in ('void', ''):
                    no = self.no
                    self.no += 1
                    return tr + [('item', norm_t(n['t']), None, no)]
                self.problems.append((f, n))
                return tr
            lam = self.lambda_of(f, args[0], env) if k == 'opcall' and n.get('op') == '()' and args else None
            if g is not None and (passes or lam is not None or k == 'mcall' and self.moves(g)) and depth < self.MAXD:
                e2 = {}
                if lam is not None:
                    e2 = dict(env)
                elif off:
                    e2['this'] = self.path(f, args[0], env)
                elif k == 'ctor':
                    e2['this'] = None
                for p, x in zip(g.params, args[off:]):
                    q = self.path(f, x, env)
                    e2[p['id']] = ('path', q) if q is not None else ('local',)
                    nn = f.N[x]
                    if nn['k'] == 'ref' and env.get(nn['d'], ('',))[0] in ('item', 'loop'):
                        e2[p['id']] = env[nn['d']]
                self.visited.add(g.fid)
                return tr + self.ex(g, g.body, e2, depth + 1)
            return tr
        tr = []
        for x in astu.kids(n):
            tr += self.ex(f, x, env, depth)
        return tr

    def lambda_of(self, f, i, env):
        n = f.N[i]
        if n['k'] == 'lambda':
            return n
        if n['k'] == 'ref':
            b = env.get(n['d'])
            if b and b[0] == 'expr':
                return self.lambda_of(b[1], b[2], b[3])
        return None

    def moves(self, g):
        """does the function touch an archive that it does not get as an argument (a member or a local)?"""
        return False

    def bound(self, f, i, env):
        p = self.path(f, i, env)
        if p is None:
            return None
        if p.startswith('item') and p[4:].isdigit():
            return ('item', int(p[4:]))
        if p in self.emitted:
            return ('item', self.emitted[p])
        return ('expr', p)

    def run(self, f):
        self.depth_ = 0
        c = [t for t, c in self.P.classes.items() if c['id'] == f.d.get('clsid')]
        self.objt = norm_t(c[0]) if c else None
        env = {'this': ''}
        for p in f.params:
            env[p['id']] = ('local',)
        self.visited.add(f.fid)
        return squash(self.ex(f, f.body, env, 0))


def squash(tr):
    out = []
    for x in tr:
        if x[0] == 'loop':
            s = squash(x[2])
            if s:
                out.append(('loop', x[1], s))
        elif x[0] == 'alt':
            a, b = squash(x[2]), squash(x[3])
            if same(a, b):
                out += a
            else:
                out.append(('alt', x[1], a, b))
        else:
            out.append(x)
    return out


def same(a, b):
    return diff(a, b) is None


def show(x):
    if x is None:
        return 'nothing'
    if x[0] == 'item':
        return f'{x[1]}' + (f' ({x[2]})' if x[2] else '')
    if x[0] == 'loop':
        return 'repeated [' + ', '.join(show(y) for y in x[2]) + ']'
    return 'conditional [' + ', '.join(show(y) for y in x[2]) + ' | ' + ', '.join(show(y) for y in x[3]) + ']'


def diff(a, b, where='record', targets=True, base=None):
    """None or a text that says where the two traces part; items are numbered alike as long as the traces agree"""
    for j in range(max(len(a), len(b))):
        x = a[j] if j < len(a) else None
        y = b[j] if j < len(b) else None
        w = f'item {j + 1} of the {where}'
        if x is None or y is None or x[0] != y[0]:
            return f'{w}: {show(x)} is written, {show(y)} is read'
        if x[0] == 'item':
            if x[1] != y[1]:
                return f'{w}: {show(x)} is written, {show(y)} is read'
            if targets and x[2] is not None and y[2] is not None and usable(x[2]) and usable(y[2]) and not agree(x[2], y[2]):
                return f'{w}: written from {x[2]}, read into {y[2]}'
        elif x[0] == 'loop':
            if x[1] and y[1] and x[1][0] == y[1][0] == 'item' and x[1] != y[1]:
                return f'{w}: the number of repetitions is item {x[1][1]} when writing and item {y[1][1]} when reading'
            d = diff(x[2], y[2], f'repeated part (item {j + 1} of the {where})', targets)
            if d:
                return d
        else:
            d = diff(x[2], y[2], 'conditional part', targets) or diff(x[3], y[3], 'conditional part', targets)
            if d:
                return d
    return None


def agree(p, q):
    if p.startswith('?') or q.startswith('?'):
        # a local stand-in for the object: only the subscripts can be compared
        i, j = (re.search(r'\[(#[^\]]*)\]$', x) for x in (p, q))
        return not (i and j) or i.group(1) == j.group(1)
    return p == q


def usable(p):
    """is the target a data member or an element (not a derived value such as a size)?"""
    return '(' not in p


def items(tr):
    for x in tr:
        if x[0] == 'item':
            yield x
        elif x[0] == 'loop':
            yield from items(x[2])
        else:
            yield from items(x[2])
            yield from items(x[3])
