"""C07: the distributed diagonalisation protocol is matched on both sides."""
import re

import absint
import common
import coredrv
import C06
import C10
import models
from absint import L, OBJ, NOVAL, strip_targs
from terms import K, S, fresh, mk, fn, add, sub, scale, lin_parts, mk_lin

COMM = 'boost::mpi::communicator'
SIZE = fn('number of processes')


def ptype(t):
    t = re.sub(r'\bconst\b', '', t).replace('&', '').strip()
    return re.sub(r'\s+', ' ', t)


class Ev:
    """one message; kind: send recv bcast ham diag key inc push loop"""
    def __init__(self, kind, where='', peer=None, tag=None, typ=None, arr=False, val=None, cnt=None, off=None, n=None, bodies=(), lp=None, dp=None):
        self.kind, self.where, self.peer, self.tag, self.typ, self.arr, self.val, self.cnt, self.off, self.bodies, self.lp, self.dp = kind, where, peer, tag, typ, arr, val, cnt, off, bodies, lp, dp

    def key(self):
        return (self.kind, self.where, str(self.peer), str(self.tag), self.typ, str(self.cnt))

    def __repr__(self):
        if self.kind == 'loop':
            return f'loop{[list(b) for b in self.bodies]}'
        return f'{self.kind}(peer {self.peer}, tag {self.tag}, {self.typ}{"[]" if self.arr else ""})'

    def text(self):
        if self.kind in ('send', 'recv'):
            return f'{self.kind} of {self.typ}{"[]" if self.arr else ""} with tag {tagname(self.tag)} at {self.where}'
        if self.kind == 'bcast':
            return f'broadcast of {self.typ} at {self.where}'
        if self.kind == 'loop':
            return f'loop over messages at {self.where}'
        return f'{self.kind} at {self.where}'


NAMES = {}


def tagname(t):
    if hasattr(t, 'op') and absint.isnum(t):
        return NAMES.get(int(t.a[0]), str(int(t.a[0])))
    return str(t)[:60]


def eid(I, st, loc):
    """identity of the contents of an object"""
    loc = tuple(loc)
    s, ep = st.origin(loc)
    return (s, ep, tuple(sorted(((k, v) for k, v in st.subs(loc) if not (k and k[-1] in ('#ep', '#type'))), key=str)))


class Proto(coredrv.Hooks):
    """records the messages on every path"""
    rank = K(0)
    mainmode = False
    tagsym = None

    def __init__(self, *a):
        super().__init__(*a)
        self.ends = []
        self.base = {}
        self.body = {}
        self.symmetric = {}
        self.backs = []
        self.cond = {}
        self.entrycnt = {}

    def bad(self, key, I, fr, n, text):
        if not I.quiet:
            self.add(key, key, I.where(fr, n), text)

    # ---- the sequence of messages
    def seq(self, st):
        g = st.ghost('seq')
        return g.a[0] if g is not None and g.op == 'seq' else ()

    def put(self, st, evs):
        st.setghost(mk('seq', tuple(evs)) if evs else K(0), 'seq')

    def emit(self, st, ev):
        self.put(st, self.seq(st) + (ev,))

    def on_start(self, I, st):
        st.setghost(K(0), 'seq')
        st.setghost(K(0), 'probe')
        if self.tagsym is not None:
            st.setghost(self.tagsym, 'tag')

    def join_ghost(self, I, key, vals):
        return vals[0] if key and key[0] == 'seq' else None

    def signature(self, I, st):
        return tuple(e.key() for e in self.seq(st)), str(st.ghost('probe')), self.sigtag(I, st)

    def sigtag(self, I, st):
        if self.tagsym is None:
            return ''
        iv = I.iv(st, self.tagsym)
        return str(iv)

    def live_terms(self, I, st):
        out = []
        for e in self.seq(st):
            out += [t for t in (e.peer, e.tag, e.val, e.cnt, e.off) if hasattr(t, 'vol')]
        if self.tagsym is not None:
            out.append(self.tagsym)
        g = st.ghost('probe')
        if g is not None and hasattr(g, 'vol'):
            out.append(g)
        return out

    # ---- loops
    def on_loop_entry(self, I, st, fr, n):
        k = (id(n), fr.ctx)
        self.base[k] = self.seq(st), st
        if not I.quiet:
            self.body[k] = []

    def on_loop_iter(self, I, st, fr, n):
        k = (id(n), fr.ctx)
        self.put(st, ())
        if not self.mainmode:
            st.setghost(K(0), 'probe')
        if not I.quiet:
            self.cond[k] = None
            self.body.setdefault(k, [])
            self.head = st

    def on_branch(self, I, st, fr, n, v, truth):
        pass

    def on_loop_back(self, I, st, fr, n):
        if I.quiet:
            return
        k = (id(n), fr.ctx)
        self.body[k].append((self.seq(st), st.copy()))
        self.backs.append((fr.fn, n, self.seq(st), st.copy()))
        self.back(I, st, fr, n)

    def back(self, I, st, fr, n):
        pass

    def on_loop_exit(self, I, st, fr, n, how):
        k = (id(n), fr.ctx)
        base, e = self.base.get(k, ((), None))
        if e is not None and e.ghost('probe') is not None:
            st.setghost(e.ghost('probe'), 'probe')
        bodies = [b for b, _ in self.body.get(k, [])]
        uniq = {}
        for b in bodies:
            uniq.setdefault(tuple(e.key() for e in b), b)
        evs = base
        if any(b for b in uniq.values()):
            evs = evs + (Ev('loop', I.where(fr, n), bodies=tuple(uniq.values()), lp=self.bounds(I, fr, n, k)),)
        if how != 'done':
            evs = evs + self.seq(st)
        self.put(st, evs)

    def bounds(self, I, fr, n, k):
        """candidates for the values the counter of a loop takes: (counter, first, last, step)"""
        bs = self.body.get(k, [])
        if I.quiet or not bs:
            return ()
        e = self.base[k][1]
        out = []
        b0 = bs[0][1]
        for loc in [(b,) + q for b in list(b0.env) for q in b0.env[b] if b[0] == 'v']:
            ev = e.raw(loc)
            if ev is None or loc[-1] == '#ep':
                continue
            ps = {linear(b.raw(loc)) for _, b in bs}
            if len(ps) != 1:
                continue
            p, c = ps.pop()
            if p is None or p.op != 'phi' or not c:
                continue
            for _, b in bs[:1]:
                for t, v in b.facts.items():
                    last = limit(t, v, p, c)
                    if last is not None:
                        out.append((p, ev, last, c))
        return tuple(out)

    # ---- calls
    def term(self, I, st, v):
        return I.load(st, v) if isinstance(v, L) else v

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        b = n.get('n', '')
        if name == COMM + '::rank':
            return [(st, self.rank)]
        if name == COMM + '::size':
            return [(st, SIZE)]
        if name in (COMM + '::send', COMM + '::recv'):
            return self.message(I, st, fr, i, n, b, vs)
        if name == 'boost::mpi::broadcast':
            loc = vs[1]
            val = self.term(I, st, loc) if not isinstance(loc, L) or I.kind(n['pt'][1]) not in OBJ else eid(I, st, loc)
            sent = self.rank is not K(0)
            if sent and isinstance(loc, L):
                val = self.received(I, st, tuple(loc), n['pt'][1])
            self.emit(st, Ev('bcast', I.where(fr, n), self.term(I, st, vs[2]), None, ptype(n['pt'][1]), val=val))
            return [(st, NOVAL)]
        if name.startswith('boost::mpi::') and n['k'] == 'call' and b not in ('broadcast',) or name.startswith(COMM + '::') and b in ('isend', 'irecv', 'barrier', 'sendrecv', 'ssend', 'abort'):
            self.other = I.where(fr, n)
            self.bad('only matched operations', I, fr, n, f'{name} is not part of the protocol that is checked')
            return None
        if name in (COMM + '::iprobe', COMM + '::probe'):
            tag = self.term(I, st, vs[1])
            p = fresh('probe')
            st.setghost(mk('probe', p, tag), 'probe')
            if not I.quiet:
                self.site('probes', I.where(fr, n))
            if b == 'probe':
                return None
            return None
        if name == 'boost::mpi::status::source':
            g = st.ghost('probe')
            if g is not None and g.op == 'probe':
                return [(st, fn('source', *g.a))]
            return None
        if name == 'boost::mpi::status::tag':
            if self.tagsym is not None:
                return [(st, self.tagsym)]
            return None
        if b in ('rows', 'cols') and obj is not None and 'Eigen' in str(n.get('cls')):
            loc = tuple(obj) if isinstance(obj, (L, tuple)) else I.deref(st, obj)
            return [(st, fn(b, mk('obj', eid(I, st, loc))))]
        if b == 'data' and 'Eigen' in str(n.get('cls')) and obj is not None:
            loc = tuple(obj) if isinstance(obj, (L, tuple)) else I.deref(st, obj)
            return [(st, fn('data', mk('obj', eid(I, st, loc))))]
        if b in ('size1', 'size2') and n['k'] == 'call' and vs and isinstance(vs[0], L):
            f = I.prog.fns.get(n.get('fid'))
            return [(st, fn({'size1': 'rows', 'size2': 'cols'}[b], mk('obj', eid(I, st, vs[0]))))]
        return self.task(I, st, fr, i, n, name, vs, obj)

    def received(self, I, st, loc, t):
        if I.kind(ptype(t)) in OBJ:
            I.havoc(st, loc)
            return eid(I, st, loc)
        x = I.fresh_of(ptype(t), 'received')
        st.put(loc, x)
        return x

    def message(self, I, st, fr, i, n, b, vs):
        pt = n['pt']
        peer, tag = self.term(I, st, vs[0]), self.term(I, st, vs[1])
        w = I.where(fr, n)
        ev = Ev(b, w, peer, tag)
        if len(pt) == 2:
            ev.typ = '(nothing)'
        elif len(pt) == 4:
            ev.typ, ev.arr = ptype(pt[2]).rstrip('* '), True
            ev.cnt = self.term(I, st, vs[3])
            ev.off = self.term(I, st, vs[2])
        else:
            ev.typ = ptype(pt[2])
            if b == 'recv':
                loc = tuple(vs[2]) if isinstance(vs[2], L) else None
                ev.val = self.received(I, st, loc, pt[2]) if loc else None
            else:
                ev.val = eid(I, st, vs[2]) if isinstance(vs[2], L) and I.kind(ptype(pt[2])) in OBJ else self.term(I, st, vs[2])
        self.emit(st, ev)
        if not I.quiet:
            self.site(f'{b} operations', w)
        if n.get('t') == 'void' or b == 'send':
            return [(st, NOVAL)]
        loc = I.tmp(fr, i)
        st.kill(loc)
        return [(st, L(loc))]

    def task(self, I, st, fr, i, n, name, vs, obj):
        return None

    def on_exit(self, I, st, status, fr, n, kind):
        if kind != 'throw':
            self.ends.append((self.seq(st), st, status))


def linear(t):
    """t = base + constant"""
    if t is None or not hasattr(t, 'op') or t.op in ('k', 's'):
        return None, None
    items, c = lin_parts(t)
    if len(items) != 1 or items[0][1] != 1:
        return None, None
    return items[0][0], c


def limit(t, v, p, step):
    """the last value of the counter p for which the comparison t has the value v"""
    c = v.const() if hasattr(v, 'const') else None
    if t.op != 'cmp' or c is None:
        return None
    op, a, b = t.a[:3]
    if a.op == 's' or b.op == 's':
        return None
    d = sub(a, b)
    if d.op == 'k':
        return None
    items, k = lin_parts(d)
    d = dict(items)
    co = d.get(p)
    if co not in (1, -1):
        return None
    rest = sub(mk_lin(d, k), scale(p, co))
    edge = scale(rest, -co)      # value of p where both sides are equal
    if op == '==':
        return None if c else add(edge, K(-1 if step > 0 else 1))
    up = (co == 1) == bool(c)    # p is limited from above
    if up != (step > 0):
        return None
    strict = (op == '<') == bool(c)
    return add(edge, K((-1 if up else 1) if strict else 0))


class Master(Proto):
    rank = K(0)
    ntasks = None

    def on_start(self, I, st):
        super().on_start(I, st)
        st.setghost(mk('complete', frozenset()), 'complete')
        self.incs = set()

    def join_ghost(self, I, key, vals):
        if key and key[0] == 'complete':
            return mk('complete', frozenset.intersection(*[v.a[0] for v in vals]))
        return super().join_ghost(I, key, vals)

    def task(self, I, st, fr, i, n, name, vs, obj):
        b = n.get('n', '')
        w = I.where(fr, n)
        if n.get('fid') in self.work:
            if b == 'hamiltonian':
                k = next((j for j, t in enumerate(n['pt']) if ptype(t).endswith('Invar')), None)
                loc = I.tmp(fr, i)
                I.havoc(st, loc)
                self.emit(st, Ev('ham', w, val=eid(I, st, vs[k]) if k is not None and isinstance(vs[k], L) else None, cnt=tuple(loc)))
                if not I.quiet:
                    self.site('tasks taken', w)
                return [(st, L(loc))]
            m = vs[0] if vs and isinstance(vs[0], L) else None
            dp = next((v for v, t in zip(vs, n['pt']) if ptype(t).endswith('DiagParams')), None)
            self.emit(st, Ev('diag', w, val=eid(I, st, m) if m is not None else None, dp=(tuple(dp), eid(I, st, dp)) if isinstance(dp, L) else None))
            if m is not None:
                I.havoc(st, tuple(m))
            loc = I.tmp(fr, i)
            I.havoc(st, loc)
            if not I.quiet:
                self.site('diagonalisations', w)
            return [(st, L(loc))]
        if re.match(r'std::(unordered_)?map::(operator\[\]|insert_or_assign|emplace|try_emplace|insert|emplace_hint)$', name or '') and vs and ptype((n.get('pt') or ['?'])[0]).rstrip('& ').endswith(('Invar', 'Invar, NRG::Eigen<double>>', 'Invar, NRG::Eigen<std::complex<double>>>')):
            v = vs[0]
            if b == 'insert' and isinstance(v, L):
                v = L(tuple(v) + ('first',))
            if isinstance(v, L):
                self.emit(st, Ev('key', w, val=eid(I, st, v)))
        return None

    def on_push(self, I, st, fr, n, loc, vals):
        self.incs.add(tuple(loc) + ('#size',))
        v = vals[0] if vals else None
        t = self.term(I, st, v) if v is not None and ptype((n.get('pt') or ['?'])[0]).rstrip('& ') in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t') else None
        self.emit(st, Ev('inc', I.where(fr, n), val=tuple(loc) + ('#size',), peer=t))

    def on_assign(self, I, st, fr, n, loc, new):
        if n.get('op') == '+=':
            self.on_inc(I, st, fr, n, loc)

    def on_inc(self, I, st, fr, n, loc):
        if len(loc) == 1:
            self.incs.add(tuple(loc))
            self.emit(st, Ev('inc', I.where(fr, n), val=tuple(loc)))

    def on_loop_exit(self, I, st, fr, n, how):
        super().on_loop_exit(I, st, fr, n, how)
        if self.ntasks is not None:
            done = set()
            size = models.size_of(I, st, self.ntasks)
            for loc in self.incs:
                x = models.size_of(I, st, loc[:-1]) if loc[-1] == '#size' else st.raw(loc)
                if x is not None and I.decide(st, I.cmpterm('<', x, size, 'i')) == 0:
                    done.add(loc)
                elif x is not None and (I.decide(st, I.cmpterm('==', x, size, 'i')) == 1 or I.decide(st, I.cmpterm('==', size, x, 'i')) == 1):
                    done.add(loc)
            st.setghost(mk('complete', frozenset(done)), 'complete')


class Slave(Master):
    rank = fresh('rank', 1, None, False, True)

    def __init__(self, *a):
        super().__init__(*a)
        self.paths = []
        self.tagsym = fresh('tag', None, None, False, True)

    def head(self, st):
        s = self.seq(st)
        return bool(s) and s[0].kind == 'recv'

    def message(self, I, st, fr, i, n, b, vs):
        if b == 'recv' and is_any(self.term(I, st, vs[1])):
            st.facts = {k: v for k, v in st.facts.items() if not C10.contains(k, self.tagsym)}
        return super().message(I, st, fr, i, n, b, vs)

    def back(self, I, st, fr, n):
        s = self.seq(st)
        if s and s[0].kind == 'recv' and s[0].peer is K(0) and is_any(s[0].tag):
            self.paths.append((I.iv(st, self.tagsym), s, st, 'back', I.where(fr, n), st.copy()))

    def on_loop_exit(self, I, st, fr, n, how):
        s = self.seq(st)
        if not I.quiet and how in ('return', 'break') and s and s[0].kind == 'recv' and is_any(s[0].tag):
            self.paths.append((I.iv(st, self.tagsym), s, st, how, I.where(fr, n), st.copy()))
        super().on_loop_exit(I, st, fr, n, how)


def is_any(t):
    return not absint.isnum(t) or t.a[0] < 0


def opaque_rule(P):
    up = C06.prepare(P)['up']
    loops = C06.prepare(P)['loops']
    mp = {f.fid for f in P.fns.values() for n in f.N if n['k'] in ('call', 'mcall') and (str(n.get('cls', '')).startswith(COMM) or str(n.get('fn', '')).startswith('boost::mpi::'))}
    work = {f.fid for f in P.fns.values() if f.n in ('hamiltonian', 'diagonalise') and f.kind == 'fn'}
    keep = up(mp | work)

    def opaque(f):
        return f.fid in work or f.fid not in keep and (f.fid in loops or len(f.N) > 150)
    return opaque, mp, keep, work


def run(P, f, cls, label, opaque):
    h = cls(label)
    h.P = P
    I = C10.Interp(P, h, libthrow=False)
    I.opaque = opaque
    h.I = I
    I.run_function(f)
    return h, I


# ------------------------------------------------------------------ comparison of both sides
MSG = ('send', 'recv', 'bcast')


def messages(evs):
    """the messages in a sequence of events (loops without messages are left out)"""
    out = []
    for e in evs:
        if e.kind in MSG:
            out.append(e)
        elif e.kind == 'loop':
            bodies = []
            for b in e.bodies:
                m = messages(b)
                if not any([x.key() for x in m] == [x.key() for x in o] for o in bodies):
                    bodies.append(m)
            if any(bodies):
                out.append(Ev('loop', e.where, bodies=tuple(tuple(b) for b in bodies), lp=e.lp))
    return out


class Mismatch(Exception):
    def __init__(self, where, text):
        super().__init__(text)
        self.where = where


def index_of(t, vals):
    """the scalars exchanged earlier that have the value t"""
    return {j for j, v in enumerate(vals) if v is not None and v is t}


def poly(t, vals, phi):
    """t as an expression in the exchanged scalars and the counter; None if it holds anything else"""
    if t is phi:
        return 'i'
    ix = index_of(t, vals)
    if ix:
        return f'${min(ix)}'
    if absint.isnum(t):
        return str(t.a[0])
    if t.op == 'lin':
        ps = [(poly(x, vals, phi), c) for x, c in t.a[0] if not is_data(x)]
        if any(x is None for x, _ in ps):
            return None
        return '+'.join(sorted(f'{c}*{x}' if c != 1 else x for x, c in ps)) + (f'+{t.a[1]}' if t.a[1] else '')
    if t.op == 'fn' and t.a[0] == '*':
        ps = [poly(x, vals, phi) for x in t.a[1:]]
        return None if None in ps else '*'.join(sorted(ps))
    if is_data(t):
        return ''
    return None


def is_data(t):
    return t.op == 'fn' and t.a[0] == 'data'


def tags_equal(a, b):
    return a is b or absint.isnum(a) and absint.isnum(b) and a.a[0] == b.a[0]


def match(out, inc, where, whose, sv=None, rv=None, lo=None, li=None):
    """compare the messages sent by one side with those received by the other"""
    sv, rv = [] if sv is None else sv, [] if rv is None else rv
    for j in range(max(len(out), len(inc))):
        o = out[j] if j < len(out) else None
        r = inc[j] if j < len(inc) else None
        if o is None:
            raise Mismatch(r.where, f'the {r.text()} has no counterpart: {whose} sends nothing more at this point')
        if r is None:
            raise Mismatch(o.where, f'the {o.text()} is never received by the other side')
        if (o.kind == 'loop') != (r.kind == 'loop'):
            raise Mismatch(r.where, f'the {o.text()} meets the {r.text()}: the number of messages differs')
        if o.kind == 'loop':
            bo, br = [b for b in o.bodies], [b for b in r.bodies]
            if len(bo) != 1 or len(br) != 1:
                w = o if len(bo) != 1 else r
                raise Mismatch(w.where, f'the messages in the {w.text()} differ from one iteration to the next')
            co, cr = o.lp or (), r.lp or ()
            for x in tuple(co) + tuple(cr):
                if abs(x[3]) != 1:
                    raise Mismatch((o if x in co else r).where, f'the {(o if x in co else r).text()} does not visit every element')
            if co and cr:
                no = [add(sub(x[2], x[1]) if x[3] > 0 else sub(x[1], x[2]), K(1)) for x in co]
                nr = [add(sub(x[2], x[1]) if x[3] > 0 else sub(x[1], x[2]), K(1)) for x in cr]
                po = {poly(t, sv, None) for t in no} - {None}
                pr = {poly(t, rv, None) for t in nr} - {None}
                if (po or pr) and not po & pr:
                    raise Mismatch(r.where, f'the {o.text()} and the {r.text()} have a different number of messages')
            match(bo[0], br[0], where, whose, sv, rv, co[0] if co else None, cr[0] if cr else None)
            continue
        if not tags_equal(o.tag, r.tag):
            raise Mismatch(r.where, f'the {o.text()} is not accepted by the {r.text()}: different tags')
        if o.typ != r.typ or o.arr != r.arr:
            raise Mismatch(r.where, f'the {o.text()} meets the {r.text()}: different types')
        if o.arr:
            a, b = poly(o.cnt, sv, None), poly(r.cnt, rv, None)
            if (a is not None or b is not None) and a != b:
                raise Mismatch(r.where, f'the {o.text()} and the {r.text()} have a different number of elements')
            up = lambda x: x is not None and x[3] > 0 and absint.isnum(x[1])
            if up(lo) and up(li) and lo[1] is li[1]:
                a, b = poly(o.off, sv, lo[0]), poly(r.off, rv, li[0])
                if a is not None and b is not None and a != b:
                    raise Mismatch(r.where, f'the elements in the {o.text()} are stored at another position by the {r.text()}')
        else:
            num = not isinstance(o.val, tuple)
            sv.append(o.val if num and not absint.isnum(o.val) else None)
            rv.append(r.val if num else None)


class Checker:
    def __init__(self, rep, P):
        self.rep, self.P = rep, P
        self.R = {}         # tag -> (messages received by the slave, messages sent, kind)
        self.exit = set()
        self.headtype = None

    def bad(self, rule, where, text):
        self.rep.add(f'{rule}:{where}', rule, where, text)

    # ---- the slave
    def slave(self, f, h):
        for iv, seq, st, how, where, end in h.paths:
            ms = messages(seq)
            head, rest = ms[0], ms[1:]
            self.headtype = head.typ
            c = iv.const()
            self.rep.count('paths of the worker')
            if c is None:
                if rest:
                    self.bad('unknown tags are ignored', rest[0].where, f'{f.q} exchanges further messages ({rest[0].text()}) for tags it does not know')
                if how == 'return':
                    self.bad('the worker only stops when told to', where, f'{f.q} returns on a message that is not the request to stop')
                continue
            c = int(c)
            for e in rest:
                if e.peer is not None and e.peer is not head.peer:
                    for x in ([e] if e.kind != 'loop' else [y for b in e.bodies for y in b]):
                        if x.kind in ('send', 'recv') and x.peer is not head.peer:
                            self.bad('the worker answers the process that asked', x.where, f'{f.q}: the {x.text()} is not exchanged with the process that sent the request')
            rc, sd = [], []
            for e in rest:
                k = kind(e)
                if k == 'mixed':
                    self.bad('the worker answers after it has read the request', e.where, f'{f.q}: the {e.text()} mixes messages in both directions')
                if k == 'send':
                    sd.append(e)
                elif sd:
                    self.bad('the worker answers after it has read the request', e.where, f'{f.q}: the {e.text()} comes after the answer was started')
                else:
                    rc.append(e)
            if how == 'return':
                self.exit.add(c)
                if rest:
                    self.bad('the worker only stops when told to', rest[0].where, f'{f.q}: messages follow the request to stop')
            self.R.setdefault(c, []).append((rc, sd, how, where))
            self.answer(f, h, c, seq, st, end)
        for c, vs in self.R.items():
            if len({v[2] for v in vs}) > 1:
                self.bad('the worker only stops when told to', vs[0][3], f'{f.q} stops for some messages with tag {NAMES.get(c, c)} but not for others')
        if not self.exit and h.ends:
            # the loop is left by its condition: the requests without further messages may be the one to stop
            self.exit |= {c for c, vs in self.R.items() if not any(v[0] or v[1] for v in vs)}
        if not self.exit:
            self.bad('the worker only stops when told to', f'{f.file}:{f.line}', f'{f.q} never returns')

    def answer(self, f, h, c, seq, st, end):
        """the answer belongs to the request"""
        got = [e for e in seq if e.kind == 'recv' and isinstance(e.val, tuple)]
        sent = [e for e in seq if e.kind == 'send' and isinstance(e.val, tuple) and any(g.typ == e.typ for g in got)]
        for e in sent:
            self.rep.count('answers of the worker')
            if not any(g.val == e.val for g in got if g.typ == e.typ):
                self.bad('the answer belongs to the request', e.where, f'{f.q}: the {e.text()} is not the {e.typ} that was received with the request')
        dg = [e for e in seq if e.kind == 'diag']
        if any(kind(e) == 'send' for e in messages(seq)) and len(dg) != 1:
            self.bad('the answer belongs to the request', seq[0].where, f'{f.q} answers a request with {len(dg)} diagonalisations')
        for e in dg:
            if e.dp is not None:
                self.dploc = (f, e)

    def params(self, f, h):
        """the parameters used by the worker are those that were broadcast"""
        e = getattr(self, 'dploc', (None, None))[1]
        if e is None:
            return
        loc = e.dp[0]
        for iv, seq, st, how, where, end in h.paths:
            for b in seq:
                if b.kind == 'bcast' and b.typ.endswith('DiagParams'):
                    self.rep.count('broadcasts of the settings')
                    x = eid(h.I, end, loc)
                    if x != b.val and (x[0], x[1]) != (b.val[0], b.val[1]):
                        self.bad('the worker uses the settings that were sent', b.where, f'{f.q}: the settings received by the {b.text()} are not those passed to the diagonalisation at {e.where}')

    # ---- the master
    def master(self, f, h):
        info = {'exit': [], 'diag': False}
        seen = set()
        for seq, st, _ in h.ends:
            key = repr([e.key() for e in flat(seq)])
            r = self.parse(f, list(seq), top=True)
            info['exit'].append(r)
        return info

    def parse(self, f, evs, top=False):
        """check one sequence; returns the tags that were sent to all workers"""
        evs = [e for e in evs if e.kind in MSG or e.kind == 'loop' and any(x.kind in MSG + ('ham', 'diag', 'key') for x in flat([e])) or e.kind in ('ham', 'diag', 'key', 'inc')]
        allsent = []
        i = 0
        pend = None      # task taken
        res = None       # result that has to be stored: (identity, where, stored, counted)
        awaited = set()
        def close(w):
            nonlocal pend, res
            if pend is not None:
                self.bad('every task is done once', pend.where, f'{f.q}: a task is taken at {pend.where} but neither diagonalised nor sent to a worker')
            self.closeres(f, res)
            pend = res = None
        sentto = None
        while i < len(evs):
            e = evs[i]
            if e.kind == 'ham':
                close(e.where)
                pend = e
                self.rep.count('tasks followed')
                i += 1
            elif e.kind == 'diag':
                self.rep.count('local diagonalisations followed')
                if pend is None:
                    self.bad('every task is done once', e.where, f'{f.q}: a matrix is diagonalised at {e.where} although no task was taken for it or the task was passed on already')
                else:
                    if e.val is not None and not uses(e.val, pend.cnt):
                        self.bad('every task is done once', e.where, f'{f.q}: the matrix diagonalised at {e.where} is not the one built for the task')
                    self.closeres(f, res)
                    res = [pend.val, e, 0, {}]
                self.diagdp(f, e)
                pend = None
                i += 1
            elif e.kind == 'send':
                i, t = self.request(f, evs, i)
                if t is not None:
                    if any(k == 'send' for r in self.R.get(t, ()) for k in map(kind, r[1])):
                        m = [x for x in messages(evs[:i]) if x.kind == 'send' and isinstance(x.val, tuple)]
                        self.rep.count('requests followed')
                        if pend is None:
                            self.bad('every task is done once', e.where, f'{f.q}: a request is sent at {e.where} although no task was taken or the task was done already')
                        else:
                            last = m[-1] if m else None
                            if last is not None and pend.val is not None and last.val != pend.val:
                                self.bad('every task is done once', last.where, f'{f.q}: the subspace sent at {last.where} is not the one of the task')
                        sentto = e.peer
                        pend = None
                        if not self.synced:
                            self.bad('the settings are sent first', e.where, f'{f.q}: a request is sent at {e.where} before the settings were broadcast')
            elif e.kind == 'recv':
                i, val = self.reply(f, evs, i)
                self.closeres(f, res)
                res = [val, e, 0, {}]
                self.rep.count('replies followed')
            elif e.kind == 'bcast':
                self.bad('a broadcast is announced', e.where, f'{f.q}: the workers are not told about the {e.text()}')
                i += 1
            elif e.kind == 'loop':
                ms = messages([e])
                t = self.workers(f, ms[0]) if ms else None
                if t is None:
                    for b in e.bodies:
                        allsent += [('loop', x) for x in self.parse(f, list(b))]
                    i += 1
                    continue
                allsent.append(t)
                i += 1
                for rc, sd, how, where in self.R.get(t, ()):
                    nx = [x for x in evs[i:] if x.kind in MSG or x.kind == 'loop' and messages([x])][:1]
                    if rc and rc[0].kind == 'bcast':
                        if not nx or nx[0].kind != 'bcast':
                            self.bad('a broadcast is announced', e.where, f'{f.q}: the workers wait for the broadcast at {rc[0].where}, which does not follow')
                        else:
                            b = nx[0]
                            if b.typ != rc[0].typ or b.peer is not rc[0].peer:
                                self.bad('messages match', b.where, f'the {b.text()} and the {rc[0].text()} differ in type or root')
                            if len(rc) > 1:
                                self.bad('messages match', rc[1].where, f'the {rc[1].text()} has no counterpart')
                            if b.typ.endswith('DiagParams'):
                                self.synced = True
                                self.sync = b
                            self.rep.count('broadcasts followed')
                            i = evs.index(b) + 1
                    elif rc or sd:
                        self.bad('messages match', (rc + sd)[0].where, f'the {(rc + sd)[0].text()} has no counterpart in {f.q}')
            elif e.kind == 'key':
                if res is not None:
                    res[2] += 1
                    if res[0] is not None and e.val != res[0]:
                        self.bad('every result is stored under its subspace', e.where, f'{f.q}: the result of {res[1].where} is stored at {e.where} under another subspace')
                i += 1
            else:
                if res is not None:
                    res[3][e.val] = res[3].get(e.val, 0) + 1
                if sentto is not None and e.peer is sentto:
                    self.bad('a busy worker gets no further task', e.where, f'{f.q}: the worker that was sent a task is made available again at {e.where} before its result was received')
                i += 1
        close(None)
        return allsent

    def closeres(self, f, res):
        if res is None:
            return
        val, e, stored, counted = res
        if stored != 1:
            self.bad('every result is stored under its subspace', e.where, f'{f.q}: the result obtained at {e.where} is stored {stored} times')
        self.counted.append((e, counted))

    def diagdp(self, f, e):
        if self.sync is not None and e.dp is not None and isinstance(self.sync.val, tuple) and self.sync.val[:2] != e.dp[1][:2]:
            self.bad('the worker uses the settings that were sent', e.where, f'{f.q}: the settings broadcast at {self.sync.where} are not those used at {e.where}')

    def request(self, f, evs, i):
        e = evs[i]
        if not absint.isnum(e.tag) or int(e.tag.a[0]) not in self.R:
            self.bad('messages match', e.where, f'{f.q}: no worker waits for the {e.text()}')
            return i + 1, None
        t = int(e.tag.a[0])
        if e.typ != self.headtype:
            self.bad('messages match', e.where, f'{f.q}: the {e.text()} is received as {self.headtype}')
        j = i + 1
        for rc, sd, how, where in self.R[t]:
            want = len(rc)
            if rc and rc[0].kind == 'bcast':
                self.bad('a broadcast is announced', e.where, f'{f.q}: only one worker is told about the broadcast')
                continue
            got = []
            k = i + 1
            while k < len(evs) and len(got) < want:
                x = evs[k]
                if x.kind in ('ham', 'diag', 'key', 'inc'):
                    k += 1
                    continue
                if kind(x) != 'send':
                    break
                got += messages([x])
                k += 1
            try:
                for x in got:
                    for y in ([x] if x.kind != 'loop' else [z for b in x.bodies for z in b]):
                        if y.peer is not e.peer:
                            raise Mismatch(y.where, f'the {y.text()} goes to another process than the request')
                match(got, rc, e.where, f.q)
                self.rep.count('messages matched', len(got) + 1)
            except Mismatch as m:
                self.bad('messages match', m.where, f'{f.q}, request with tag {tagname(e.tag)}: {m}')
            j = max(j, k)
        return j, t

    def reply(self, f, evs, i):
        e = evs[i]
        cands = [(t, sd) for t, vs in self.R.items() for rc, sd, how, where in vs if sd and sd[0].kind != 'loop' and tags_equal(sd[0].tag, e.tag)]
        if not cands:
            self.bad('messages match', e.where, f'{f.q}: no worker sends what the {e.text()} waits for')
            return i + 1, None
        t, sd = cands[0]
        got, k = [], i
        while k < len(evs) and len(got) < len(sd):
            x = evs[k]
            if x.kind in ('ham', 'diag', 'key', 'inc'):
                k += 1
                continue
            if kind(x) != 'recv':
                break
            got += messages([x])
            k += 1
        val = None
        try:
            for x in got:
                for y in ([x] if x.kind != 'loop' else [z for b in x.bodies for z in b]):
                    if y.peer is not e.peer:
                        raise Mismatch(y.where, f'the {y.text()} is not received from the same process as the rest of the reply')
                    if not (hasattr(y.peer, 'op') and y.peer.op == 'fn' and y.peer.a[0] == 'source'):
                        raise Mismatch(y.where, f'the {y.text()} is not tied to the process whose reply was found')
                    if y is e and absint.isnum(y.peer.a[2]) and not is_any(y.peer.a[2]) and not tags_equal(y.peer.a[2], y.tag):
                        raise Mismatch(y.where, f'a message with tag {tagname(y.peer.a[2])} is looked for before the {y.text()}, which is sent first')
                    if isinstance(y.val, tuple) and y.typ.endswith('Invar'):
                        val = y.val
            match(sd, got, e.where, 'the worker')
            self.rep.count('messages matched', len(got))
        except Mismatch as m:
            self.bad('messages match', m.where, f'{f.q}, reply to {NAMES.get(t, t)}: {m}')
        return max(k, i + 1), val

    def workers(self, f, ms):
        """a request sent to every worker"""
        if len(ms.bodies) < 1 or any(len(b) > 1 or b and b[0].kind != 'send' for b in ms.bodies):
            return None
        e = next(b[0] for b in ms.bodies if b)
        if not absint.isnum(e.tag) or int(e.tag.a[0]) not in self.R or any(r[0] and r[0][0].kind != 'bcast' for r in self.R[int(e.tag.a[0])]):
            return None
        cs = [c for c in ms.lp or () if c[0] is e.peer]
        if not cs:
            return int(e.tag.a[0]) if not ms.lp else None
        t = int(e.tag.a[0])
        if e.typ != self.headtype:
            self.bad('messages match', e.where, f'{f.q}: the {e.text()} is received as {self.headtype}')
        last = sub(SIZE, K(1))
        ok = any({c[1], c[2]} == {K(1), last} and abs(c[3]) == 1 and (c[1] is K(1)) == (c[3] > 0) for c in cs)
        self.rep.count('messages to all workers')
        if not ok or len(ms.bodies) > 1:
            self.bad('every worker is told', e.where, f'{f.q}: the {e.text()} does not go to every worker exactly once')
        return t


def kind(e):
    if e.kind == 'loop':
        ks = {kind(x) for b in e.bodies for x in b if kind(x)}
        return ks.pop() if len(ks) == 1 else 'mixed' if ks else None
    return e.kind if e.kind in ('send', 'recv', 'bcast') else None


def flat(evs):
    for e in evs:
        yield e
        for b in e.bodies:
            yield from flat(b)


def uses(val, loc):
    return val[0] == loc or any(C10.mentions(t, loc) for k, t in val[2])


def body(rep):
    rep.rules = ['every message sent by the master is the beginning of a request the worker knows, or follows in the order, with the tag, type and number of elements in which the worker receives it',
                 'every answer of the worker is received by the master in the same order, with the same tags, types and numbers of elements, all from the process whose reply was found',
                 'settings are broadcast after every worker (1 .. size-1) was told exactly once; the request to stop goes to every worker on every normal end of the destructor, which is virtual; the worker returns for this request only',
                 'each task taken is diagonalised here or sent to one worker, each result is stored once under its subspace and counted once, and the function returns only if the number of results is not smaller than the number of tasks',
                 'the answer of the worker carries the subspace it received, and the diagonalisation uses the settings that were broadcast',
                 'all data members of the classes that are sent are serialised',
                 'every process that continues after the start-up takes part in the same broadcast']
    P = coredrv.core_prog()
    for q, v in P.enums.items():
        if '::TAG::' in q:
            NAMES[v] = q.split('::')[-1]
    opaque, mp, keep, work = opaque_rule(P)
    Master.work = work
    up = C06.prepare(P)['up']
    # ---- the worker
    anytag = {f.fid for f in P.fns.values() if any(n['k'] == 'ref' and n.get('n') == 'any_tag' for n in f.N) and any(n['k'] == 'mcall' and n.get('n') == 'recv' for n in f.N)}
    roots, todo = {}, list(anytag)
    seen = set(todo)
    callers = {}
    for f in P.fns.values():
        for g in coredrv.calls(P, f):
            callers.setdefault(g.fid, set()).add(f.fid)
    while todo:
        f = P.fns[todo.pop()]
        h, I = run(P, f, Slave, f.q, opaque)
        if h.paths:
            roots[f.fid] = h
        else:
            for c in callers.get(f.fid, ()):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
    if not roots:
        rep.broken.append('no function was found that serves requests from other processes')
        return ''
    served = up(set(roots))
    # ---- the master
    reach = {}
    for fid, h in roots.items():
        reach |= {g: 1 for g in coredrv.reach(P, [P.fns[fid]])}
    cand = [f for f in P.fns.values() if f.fid in up(mp) and f.fid not in served]
    cids = {f.fid for f in cand}
    top = [f for f in cand if not (callers.get(f.fid, set()) & cids) and (f.fid not in reach or f.kind == 'dtor')]
    hs = {}
    for f in top:
        Master.ntasks = next(((('root', p['n']),) for p in f.params if re.search(r'vector<(NRG::)?Invar', p['t'])), None)
        hs[f.fid] = run(P, f, Master, f.q, opaque)[0]
        rep.count('functions of the master interpreted')
    for fid, h in roots.items():
        f = P.fns[fid]
        inst = next((m.group(0) for n in f.N for m in [re.search(r'std::complex<double>', str(n.get('t', '')))] if m), '')
        C = Checker(rep, P)
        C.slave(f, h)
        C.params(f, h)
        coredrv.merge(rep, h)
        rep.count('workers interpreted')
        stopped = []
        for g in top:
            if ('complex' in g.q) != bool(inst):
                continue
            C.synced, C.sync, C.counted = False, None, []
            m = hs[g.fid]
            ends = []
            for seq, st, _ in m.ends:
                C.synced, C.sync, C.counted = False, None, []
                ends.append(C.parse(g, list(seq)))
                if C.counted:
                    complete(rep, C, g, st, seq)
            if g.fid in hs:
                coredrv.merge(rep, m)
            if any(t in C.exit for e in ends for t in e):
                stopped.append(g)
                for e, (seq, st, _) in zip(ends, m.ends):
                    if not any(t in C.exit for t in e):
                        C.bad('the workers are stopped', f'{g.file}:{g.line}', f'{g.q} may return without having told the workers to stop')
                if g.kind == 'dtor' and not g.d.get('virt'):
                    C.bad('the workers are stopped', f'{g.file}:{g.line}', f'{g.q} is not virtual: it does not run if the object is destroyed through its base class')
        if not stopped:
            C.bad('the workers are stopped', f'{f.file}:{f.line}', 'no function of the master tells the workers to stop')
    # ---- the destructor on a worker
    for g in top:
        if g.kind == 'dtor':
            class Other(Master):
                rank = Slave.rank
            h, I = run(P, g, Other, g.q + ' (on a worker)', opaque)
            for seq, st, _ in h.ends:
                for e in messages(seq):
                    rep.add(f'worker dtor:{e.where}', 'the workers are stopped', e.where, f'{g.q} sends messages ({e.text()}) when it runs on a worker')
    serialised(rep, P, mp)
    startup(rep, absint.Prog(common.extract('c++/nrg.cc', common.CFLAGS, ['c++/nrg.cc'], 'nrgmain')))
    rep.need('messages matched', 10)
    rep.need('requests followed', 1)
    rep.need('replies followed', 1)
    rep.need('local diagonalisations followed', 1)
    rep.need('messages to all workers', 2)
    return 'The loop of the worker and the functions of the master are interpreted; the sequences of messages on all paths, loops included, are compared with each other.'


class Start(Proto):
    """start-up: what one process does until it works for the master or for itself"""
    shared = {}

    def signature(self, I, st):
        return (tuple(e.key() + (str(e.val),) for e in self.seq(st)), tuple(str(I.iv(st, t)) for t in self.shared.values()))

    def live_terms(self, I, st):
        return super().live_terms(I, st) + list(self.shared.values())

    def task(self, I, st, fr, i, n, name, vs, obj):
        if fr.fn is not self.top:
            return None
        pt = n.get('pt') or []
        if any('mpi::communicator' in t for t in pt) and n['k'] == 'call' and n.get('fid') not in self.inner:
            self.emit(st, Ev('work', I.where(fr, n)))
            if not I.quiet:
                self.site('calls that take the communicator', I.where(fr, n))
            return [(st, NOVAL)]
        if n['k'] == 'call' and n.get('fid') in self.P.fns and n.get('fid') not in self.inner and n.get('t') in ('bool', 'int'):
            t = self.shared.setdefault(id(n), fresh(n['n'], *((0, 1, False, True) if n['t'] == 'bool' else (None, None, False, True))))
            st.setghost(t, 'shared', n['l'], n['n'])
            return [(st, t)]
        return None


def startup(rep, P):
    main = next((f for f in P.fns.values() if f.n == 'main' and f.kind == 'fn'), None)
    if main is None:
        rep.broken.append('no main function in nrg.cc')
        return
    mp = {f.fid for f in P.fns.values() for n in f.N if n['k'] in ('call', 'mcall') and (str(n.get('cls', '')).startswith(COMM) or str(n.get('fn', '')).startswith('boost::mpi::'))}
    inner = C06.prepare(P)['up'](mp)
    Start.shared = {}
    runs = []
    for rank in (K(0), Slave.rank):
        h = Start('main, rank ' + str(rank))
        h.P, h.top, h.inner, h.rank = P, main, inner, rank
        I = C10.Interp(P, h, libthrow=False)
        I.opaque = lambda f: f.fid not in inner
        h.I = I
        I.run_function(main)
        coredrv.merge(rep, h)
        runs.append((h, I))
    (h0, i0), (h1, i1) = runs
    for s0, st0, r0 in h0.ends:
        for s1, st1, r1 in h1.ends:
            if not compatible(i0, st0, s0, i1, st1, s1):
                continue
            rep.count('pairs of start-up paths compared')
            a, b = [e for e in s0 if e.kind in ('bcast', 'work', 'send', 'recv')], [e for e in s1 if e.kind in ('bcast', 'work', 'send', 'recv')]
            for j in range(max(len(a), len(b))):
                x, y = a[j] if j < len(a) else None, b[j] if j < len(b) else None
                if x is None or y is None or (x.kind, x.typ) != (y.kind, y.typ) or x.peer is not y.peer:
                    e = x or y
                    who = 'the master' if x is None else 'a worker'
                    if e.kind == 'work':
                        t = f'{who} ends while another process enters the calculation at {e.where}'
                    elif x is None or y is None:
                        t = f'{who} ends without taking part in the {e.text()}'
                    else:
                        t = f'the master is at the {x.kind} ({x.where}) while a worker is at the {y.kind} ({y.where})'
                    rep.add(f'start:{e.where}:{who}', 'all processes start together', e.where, t)
                    break
    rep.need('pairs of start-up paths compared', 2)


def compatible(i0, st0, s0, i1, st1, s1):
    """can two processes be on these paths in the same run?"""
    for t in Start.shared.values():
        a, b = i0.iv(st0, t), i1.iv(st1, t)
        if a.hi < b.lo or b.hi < a.lo:
            return False
    for x, y in zip([e for e in s0 if e.kind == 'bcast'], [e for e in s1 if e.kind == 'bcast']):
        if isinstance(x.val, tuple) or isinstance(y.val, tuple) or x.val is None or y.val is None:
            continue
        c = i0.iv(st0, x.val).const()
        if c is not None:
            if not i1.assume(st1.copy(), i1.cmpterm('==', y.val, K(int(c)), 'i'), True):
                return False
        elif i1.iv(st1, y.val).const() is not None:
            if not i0.assume(st0.copy(), i0.cmpterm('==', x.val, K(int(i1.iv(st1, y.val).const())), 'i'), True):
                return False
        else:
            a, b = i0.iv(st0, x.val), i1.iv(st1, y.val)
            if a.hi < b.lo or b.hi < a.lo:
                return False
    return True


def complete(rep, C, f, st, seq):
    """the function only returns when all results have arrived"""
    g = st.ghost('complete')
    done = g.a[0] if g is not None and g.op == 'complete' else frozenset()
    rep.count('ends with all results')
    ok = [loc for loc in done if all(c.get(loc, 0) == 1 for _, c in C.counted)]
    if ok:
        return
    if not done:
        C.bad('all results are awaited', f'{f.file}:{f.d.get("end", f.line)}', f'{f.q} may return although the results of some tasks have not arrived')
        return
    for e, c in C.counted:
        for loc in done:
            if c.get(loc, 0) != 1:
                C.bad('all results are awaited', e.where, f'{f.q}: the result obtained at {e.where} is counted {c.get(loc, 0)} times')


def serialised(rep, P, mp):
    """all members of the classes that are exchanged are serialised"""
    types = set()
    for f in P.fns.values():
        if f.fid in mp:
            for n in f.N:
                if n.get('n') in ('send', 'recv', 'broadcast') and n.get('pt'):
                    types |= {ptype(t) for t in n['pt']}
    for f in P.all:
        if f.n != 'serialize' or f.kind != 'method':
            continue
        q = f.q.rsplit('::', 1)[0]
        if not any(t == q or t.split('::')[-1] == q.split('::')[-1] for t in types):
            continue
        cls = next((c for k, c in P.classes.items() if k == q or c.get('q') == q or c.get('n') == q), None)
        if cls is None:
            continue
        used = {n.get('m') for n in f.N if n['k'] == 'mem'}
        for m in cls.get('fields', []):
            if m.get('static'):
                continue
            rep.count('members of exchanged classes')
            if m['n'] not in used:
                rep.add(f'serialize:{q}:{m["n"]}', 'all members are sent', f'{f.file}:{f.line}', f'the member {m["n"]} of {q} is not sent with the object')


if __name__ == '__main__':
    common.run('C07', body)
