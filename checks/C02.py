"""C02: loading a damaged checkpoint changes nothing and is reported."""
import astu
import common
import coredrv
from C01 import roots
from terms import S, K, Term, lin_parts
from absint import L, strip_t

THIS = ('root', 'this')


class H(coredrv.Hooks):
    def prepare(self, I):
        h = self

        def note(st, loc):
            if loc and loc[0] == THIS:
                st.setghost(K(1), 'mut', 0)
        for nm in ('havoc', 'store', 'newobj'):
            def mk(old):
                def w(st, loc, *a):
                    note(st, loc)
                    return old(st, loc, *a)
                return w
            setattr(I, nm, mk(getattr(I, nm)))
        old = I.copy_obj

        def w(st, src, dst, *a, **k):
            note(st, dst)
            return old(st, src, dst, *a, **k)
        I.copy_obj = w

    def bad(self, rule, I, fr, n, text):
        self.add(rule, rule, I.where(fr, n), text)

    def mutated(self, I, st):
        if I.iv(st, st.ghost('mut', 0)).hi != 0:
            return True
        for k, v in (st.env.get(THIS) or {}).items():
            if isinstance(v, Term) and v.op in ('init', 'ep') or k and k[-1] == '#type':
                continue
            if k and str(k[-1]).startswith('#') and k[-1] not in ('#elem', '#size', '#len'):
                continue
            return True
        return False

    def on_open(self, I, st, fr, n, loc, name, d, o):
        if not I.quiet:
            self.site('files opened for reading', I.where(fr, n))
        self.names.add(name)
        st.setghost(o, 'open', name)

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        if name.startswith('boost::archive') and n['n'] in ('operator>>', 'operator&'):
            st.setghost(K(1), 'read', 0)
            if not I.quiet:
                self.site('archive reads', I.where(fr, n))
        elif name in ('boost::irange',) and len(vs) >= 2 and not I.quiet:
            v = [I.load(st, x) if isinstance(x, L) else x for x in vs]
            a, b = lin_parts(v[0]), lin_parts(v[1])
            self.site('counted loops over records', I.where(fr, n))
            if len(b[0]) == 1 and not a[0] and b[0][0][1] == 1 and b[1] - a[1] != 0:
                self.bad('exactly the stored number of records is read', I, fr, n, f'{self.tool} reads {b[1] - a[1]:+} records relative to the stored count')
        return None

    def on_catch(self, I, st, fr, n, t):
        st.setghost(K(1), 'caught', 0)

    def on_throw(self, I, st, typ, fr, n):
        st.setghost(K(0), 'caught', 0)

    def on_fs(self, I, st, fr, n, op, names, e):
        if not I.quiet:
            self.site('file system operations', I.where(fr, n))
        for nm in names:
            if nm in self.names:
                st.setghost(e, 'rm', nm)

    def signature(self, I, st):
        out = [self.mutated(I, st)]
        for k in ('mut', 'caught', 'rm', 'open', 'read'):
            for key, v in st.ghosts(k):
                c = I.iv(st, v)
                out.append((k, str(key), c.lo, c.hi))
        return hash(tuple(out[:1] + sorted(out[1:])))

    names = None

    def on_start(self, I, st):
        self.names = set()
        for k in ('mut', 'caught', 'read'):
            st.setghost(K(0), k, 0)

    def on_exit(self, I, st, status, fr, n, kind):
        if kind == 'return':
            self.site('normal ends', str(n.get('l')))
            if I.iv(st, st.ghost('caught', 0)).hi != 0:
                self.bad('a damaged file is reported', I, fr, n, f'{self.tool} can end normally after an exception was swallowed')
            os = st.ghosts('open')
            if not os:
                self.bad('a damaged file is reported', I, fr, n, f'{self.tool} can end normally without opening the file')
            for key, o in os:
                if I.iv(st, o).const() != 1:
                    self.bad('a missing file is reported', I, fr, n, f'{self.tool} can end normally although the file could not be opened')
            if I.iv(st, st.ghost('read', 0)).lo != 1:
                self.bad('a damaged file is reported', I, fr, n, f'{self.tool} can end normally without having read the stored records')
            if not self.mutated(I, st):
                self.bad('a normal end means that the records were loaded', I, fr, n, f'{self.tool} can end normally without storing what was read')
        elif kind == 'throw':
            self.count('exceptional ends')
            if self.mutated(I, st):
                self.bad('the object keeps its contents when loading fails', I, fr, n, f'{self.tool} can fail after it has changed the object that is being loaded')
            for key, e in st.ghosts('rm'):
                if I.iv(st, e).lo == 0 == I.iv(st, e).hi:
                    self.bad('a file that could not be loaded is kept', I, fr, n, f'{self.tool} can fail after it has removed the file')


def early(P, f, rep):
    """loops that read records are left early only by an exception"""
    N = f.N

    def reads(i):
        return any('iarchive' in N[x].get('cls', '') + N[x].get('t', '') or any('iarchive' in t for t in N[x].get('pt', [])) for x in astu.walk(N, i))
    for n in N:
        if n['k'] not in astu.LOOPS or not reads(astu.body_of(n)):
            continue
        rep.count('record loops')
        c = astu.cond_of(n)
        if n['k'] != 'rangefor' and (c is None or c < 0 or N[c].get('cv') == 1 or N[c].get('v') is True):
            continue
        out = astu.leaves(N, astu.body_of(n))
        for x in out:
            rep.add(f'early:{f.pk}', 'exactly the stored number of records is read', f'{f.file}:{x["l"]}', f'{f.q} leaves the loop over the stored records before the last one without reporting an error')


def body(rep):
    P = coredrv.core_prog()
    rep.rules = ['no exceptional end of a load function is reached after the object was changed or the file removed',
                 'a normal end means: the file was opened, records were read and stored, no exception was swallowed',
                 'the number of records read is the stored one; the loop over the records is left early only by an exception']
    rs = roots(P, 'binary_iarchive', 'load')
    for f in rs:
        h = coredrv.run_function(H, f, P)
        coredrv.merge(rep, h)
        rep.count('load functions analysed')
        for g in coredrv.reach(P, [f]).values():
            if any('iarchive' in p['t'] for p in g.params) or g is f:
                early(P, g, rep)
    rep.need('load functions analysed', 2)
    rep.need('archive reads', 2)
    return 'Abstract interpretation of every function that loads a checkpoint, from an unknown state, with an exception possible at every library call that may throw; along each path it tracks whether the target object or the file was changed.'


if __name__ == '__main__':
    common.run('C02', body)
