"""T03: raw binary reads fit the buffer, the file length is a whole number of rows, and the read status is tested."""
import common
import tooldrv
from terms import S, K, add, sub, scale, isnum, lin_parts, Iv, Term
from absint import L

BYTES = {'double': 8, 'float': 4, 'char': 1, 'int': 4, 'long': 8, 'unsigned char': 1, 'std::byte': 1}


def eighth(m):
    """row length in numbers from row length in bytes"""
    items, c = lin_parts(m)
    if c % 8 or any(co % 8 for _, co in items):
        return None
    r = K(c // 8)
    for x, co in items:
        r = add(r, scale(x, co // 8))
    return r


class H(tooldrv.Hooks):
    def exact(self, st, t):
        """replace integer quotients that are known to be exact by the rational value"""
        items, c = lin_parts(t)
        r = K(c)
        for x, co in items:
            if x.op == 'fn' and x.a[0] in ('idiv', 'exdiv') and isnum(x.a[2]) and x.a[2].a[0] > 0:
                num, den = x.a[1], x.a[2].a[0]
                ok = x.a[0] == 'exdiv'
                for k, v in st.facts.items():
                    if k.op == 'fn' and k.a[0] == 'imod' and k.a[1] is num and isnum(k.a[2]) and k.a[2].a[0] % den == 0 and isinstance(v, Iv) and v.const() == 0:
                        ok = True
                if ok and co % den == 0:
                    r = add(r, scale(num, co // den))
                    continue
            r = add(r, scale(x, co))
        return r

    def on_read(self, I, st, fr, n, loc, buf, ln, ok):
        where = I.where(fr, n)
        st.setghost(ok, 'rd', where)
        if I.quiet:
            return
        self.site('raw reads', where)
        sz = None
        if buf.op == 'addr':
            b = buf.a[0]
            if b[-1] == '#elem':
                sz = st.get(b[:-1] + ('#size',))
                et = st.raw(b[:-1] + ('#et',))
                w = BYTES.get(et.a[0].strip() if et is not None and et.op == 's' else '', None)
                if w is None:
                    self.add(f'buf:{fr.fn.q}', 'buffer of known element size', where, f'cannot determine the element size of the read buffer (type {et})')
                    return
                sz = scale(sz, w)
            else:
                # a single object
                sz = K(8)
        if sz is None:
            self.add(f'buf:{fr.fn.q}', 'buffer of known size', where, 'raw read into a buffer of unknown size')
            return
        sz, ln = self.exact(st, sz), self.exact(st, ln)
        d = I.iv(st, sub(sz, ln))
        self.notes.append(f'{where}: buffer {sz} length {ln}: {d}')
        if not d.empty_num() and d.lo < 0:
            self.add(f'overrun:{fr.fn.q}', 'bytes read <= bytes allocated', where, f'a file of unsuitable length is read past the end of the buffer: {ln!r} bytes requested, {sz!r} allocated')
        # the file length must have been established to be a whole number of rows
        mods = []
        for k, v in st.facts.items():
            if k.op == 'fn' and k.a[0] == 'imod' and isinstance(v, Iv) and v.const() == 0:
                mods.append(k.a[2])
        if not mods:
            self.add(f'rows:{fr.fn.q}', 'the file length is a whole number of rows', where, 'a file whose length is not a whole number of rows is accepted')
        for m in mods:
            x = I.iv(st, m)
            if x.lo < 16:
                self.add(f'rows:{fr.fn.q}', 'the file length is a whole number of rows', where, f'the file length is only compared with a multiple of {m!r} bytes')
            st.setghost(m, 'row', str(m.id))

    def on_index(self, I, st, fr, n, loc, idx):
        """accesses to the row-major data that was read"""
        if I.quiet or not any(x == '#elem' or (isinstance(x, tuple) and x[0] == '#i') for x in loc[1:]):
            return
        rows = [v for _, v in st.ghosts('row')]
        if not rows:
            return
        et = st.raw(loc + ('#et',))
        where = I.where(fr, n)
        ok, why = False, ''
        items, c = lin_parts(idx)
        if not items:
            return
        for m in rows:
            s8 = eighth(m)
            if s8 is None:
                continue
            for atom, co in items:
                if isnum(s8):
                    if co != s8.a[0]:
                        continue
                elif not (atom.op == 'fn' and atom.a[0] == '*' and s8 in atom.a[1:] and co == 1):
                    continue
                off = sub(idx, scale(atom, co))
                lo, hi = I.iv(st, off), I.iv(st, sub(off, s8))
                if lo.lo >= 0 and hi.hi <= -1:
                    ok = True
                else:
                    why = f'column {off!r} of a row of {s8!r} numbers'
        self.site('row accesses', where)
        if not ok:
            self.add(f'column:{fr.fn.q}', 'row-major access within the row', where, f'data are accessed with another row layout than the one checked on reading: index {idx!r} {why}')

    def before_join(self, I, states):
        for s in states:
            for k, v in s.ghosts('rd'):
                if I.iv(s, v).const() == 1:
                    s.delghost('rd', *k)

    def on_exit(self, I, st, status, fr, n, kind):
        if I.quiet:
            return
        iv = I.iv(st, status)
        if iv.lo > 0 or iv.hi < 0 or iv.empty_num():
            return
        for k, v in st.ghosts('rd'):
            if I.iv(st, v).const() != 1:
                self.add(f'status:{fr.fn.q}', 'the status of every raw read is tested', k[0], f'a failed or short read is not noticed before exit status 0 ({kind} at {I.where(fr, n)})')


def doublesub(f, n):
    return n['k'] == 'opcall' and n.get('op') == '[]' and n.get('cls') == 'std::vector' and 'double' in n.get('t', '') and f.file.split('/')[1] in ('binavg', 'bw', 'mats', 'specmoments')


def body(rep):
    rep.rules = ['bytes requested from istream::read <= bytes of the destination, for every file length', 'exit status 0 is only reachable if every raw read succeeded']
    tooldrv.run_tools(rep, H, eff={'event_pred': doublesub})
    rep.need('raw reads', 4)
    rep.need('row accesses', 3)
    return 'Abstract interpretation; obligations at every istream::read.'


if __name__ == '__main__':
    common.run('T03', body)
