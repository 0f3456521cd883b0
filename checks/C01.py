"""C01: checkpoint files are published atomically."""
import common
import coredrv
from terms import S, K, Term, isnum
from absint import L, strip_t


def archives(f, what):
    """local archive objects of the function"""
    return [n for n in f.N if n['k'] == 'decl' for v in n.get('vars', []) if what in v.get('t', '') and '&' not in v.get('t', '')] + \
           [n for n in f.N if n['k'] == 'ctor' and what in strip_t(n.get('t', '')) and not n.get('copy')]


def roots(P, what, base):
    """entry points: members called `base` of a class with a map of records from which an archive is built; and any other function that builds one outside of these"""
    have = [f for f in P.fns.values() if archives(f, what)]
    r = []
    for f in P.fns.values():
        if f.n == base and f.kind == 'method' and any(g.fid in {h.fid for h in have} for g in coredrv.reach(P, [f]).values()):
            r.append(f)
    cov = coredrv.reach(P, r)
    r += [f for f in have if f.fid not in cov]
    return r


class H(coredrv.Hooks):
    def short(self):
        return self.tool

    def bad(self, rule, I, fr, n, text):
        self.add(rule, rule, I.where(fr, n), text)

    def on_open(self, I, st, fr, n, loc, name, d, o):
        if d == 'in':
            return
        if not I.quiet:
            self.site('files opened for writing', I.where(fr, n))
        self.opened.add(name)
        st.setghost(o, 'file', name)
        st.setghost(K(0), 'fin', name)

    def settle(self, st, loc, I):
        """may the contents written through this stream be taken as complete?"""
        nm = st.raw(loc + ('#name',))
        d = st.raw(loc + ('#dir',))
        if nm is None or d is None or d is S('in') or d is S('str'):
            return
        op = st.raw(loc + ('#open',))
        ok = st.raw(loc + ('#ok',))
        done = op is not None and I.iv(st, op).const() == 0 and ok is not None and I.iv(st, ok).const() == 1
        st.setghost(K(1 if done else 0), 'fin', nm)

    def on_destroy(self, I, st, fr, loc, t, n):
        if 'stream' in t:
            self.settle(st, loc, I)

    def streams(self, I, st):
        for b, d in st.env.items():
            for k in list(d or {}):
                if k and k[-1] == '#name':
                    yield (b,) + k[:-1]

    def on_fs(self, I, st, fr, n, op, names, e):
        if not I.quiet:
            self.site('file system operations', I.where(fr, n))
        if op == 'rename':
            src, dst = names
            if st.ghost('file', src) is None:
                if not I.quiet:
                    self.bad('the earlier version stays until the new one replaces it', I, fr, n, f'{self.tool} renames a file that this function did not write')
                return
            if src is dst:
                self.bad('a new file is written under a temporary name', I, fr, n, f'{self.tool} renames a file to itself')
            for loc in list(self.streams(I, st)):
                if st.raw(loc + ('#name',)) is src:
                    self.settle(st, loc, I)
            if not I.quiet:
                self.site('renames', I.where(fr, n))
                if I.iv(st, st.ghost('fin', src)).const() != 1:
                    self.bad('published only after closing and checking', I, fr, n, f'{self.tool} publishes a file that was not closed and verified on this path')
                if st.ghost('file', dst) is not None:
                    self.bad('a new file is written under a temporary name', I, fr, n, f'{self.tool} writes the final file directly')
            st.setghost(e, 'ren', src)
        elif op in ('remove', 'unlink', 'remove_all'):
            if not I.quiet:
                self.removed[names[0]] = (fr, n)
            st.delghost('file', names[0])
            st.setghost(K(1), 'gone', names[0])
        elif not I.quiet:
            self.bad('the new version is moved into place by a rename', I, fr, n, f'{self.tool} uses {op} on a checkpoint file')

    def prepare(self, I):
        self.removed, self.opened = {}, set()

    def done(self, I):
        for nm, (fr, n) in self.removed.items():
            if nm not in self.opened:
                self.bad('the earlier version stays until the new one replaces it', I, fr, n, f'{self.tool} removes a file that this function did not write')

    def signature(self, I, st):
        out = []
        for k in ('file', 'ren', 'fin', 'gone'):
            for key, v in st.ghosts(k):
                c = I.iv(st, v)
                out.append((k, str(key), c.lo, c.hi))
        return hash(tuple(sorted(out)))

    def on_exit(self, I, st, status, fr, n, kind):
        for key, o in st.ghosts('file'):
            nm = key[-1] if isinstance(key, tuple) else key
            e = st.ghost('ren', nm)
            moved = e is not None and I.iv(st, e).const() == 0
            if kind == 'return':
                self.site('normal ends', str(n.get('l')))
                if not moved:
                    self.bad('a normal end means that the new version is in place', I, fr, n, f'{self.tool} can end normally although the new version was not put in place' if e is None else f'{self.tool} ignores the failure of the rename')
            elif not moved and I.iv(st, o).const() != 0:
                self.bad('no temporary file is left behind', I, fr, n, f'{self.tool} can end with an exception and leave the temporary file behind')
        if kind != 'return':
            self.count('exceptional ends')
        if kind == 'return':
            for key, o in st.ghosts('gone'):
                nm = key[-1] if isinstance(key, tuple) else key
                e = st.ghost('ren', nm)
                if e is None or I.iv(st, e).const() != 0:
                    self.bad('a normal end means that the new version is in place', I, fr, n, f'{self.tool} can end normally although the new version was removed')
            if not list(st.ghosts('file')) and not list(st.ghosts('gone')):
                self.bad('a normal end means that the new version is in place', I, fr, n, f'{self.tool} can end normally without writing anything')


def body(rep):
    P = coredrv.core_prog()
    rep.rules = ['the file that is opened for writing is not the final one; it is renamed to the final name only after it was closed and the state of the stream found good on that path',
                 'every normal end of the function has a successful rename behind it; every exceptional end has removed the temporary file; no other file is removed or renamed']
    rs = roots(P, 'binary_oarchive', 'save')
    for f in rs:
        h = coredrv.run_function(H, f, P)
        coredrv.merge(rep, h)
        rep.count('save functions analysed')
    rep.need('save functions analysed', 2)
    rep.need('renames', 2)
    return 'Abstract interpretation of every function that writes a checkpoint, from an unknown state, with an exception possible at every library call that may throw; typestate of the file (opened, written, closed, verified, renamed, removed) along each path, destructors included.'


if __name__ == '__main__':
    common.run('C01', body)
