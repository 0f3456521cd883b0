"""C05: every LAPACK failure stops the calculation."""
import re

import common
import coredrv
import tooldrv
from terms import K, Term, fresh, Iv, INF
from absint import L

NAME = re.compile(r'(?:NRG_)?(?:LAPACK_)?[sdcz](?:sy|he)(?:ev|gv)\w*?_?$')


def is_lapack(n):
    return n['k'] == 'call' and NAME.match(n.get('n', '')) and n.get('pt') and n['pt'][-1].replace(' ', '').endswith('*')


class H(coredrv.Hooks):
    checked = 0

    def bad(self, rule, I, fr, n, text):
        self.add(rule, rule, I.where(fr, n), text)

    def base(self, v):
        """location that a pointer or reference argument leads to"""
        if isinstance(v, L):
            return tuple(v)
        if isinstance(v, Term) and v.op == 'addr':
            return tuple(v.a[0])
        return None

    def owner(self, loc):
        """the object (variable) that holds the location"""
        out = []
        for x in loc:
            if isinstance(x, str) and x.startswith('#') or x == ('*',) or x == '*':
                break
            out.append(x)
        return tuple(out)

    def good(self, I, st):
        return [k for k, e in st.ghosts('info') if I.iv(st, e).const() != 0]

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        if is_lapack(n):
            if not I.quiet:
                self.site('eigensolver calls', I.where(fr, n))
                self.check(I, st, fr, n, 'before the next call')
            pts = n['pt']
            outs = [(j, self.base(v)) for j, v in enumerate(vs) if j < len(pts) and '*' in pts[j] and 'const ' not in pts[j]]
            ints = [j for j, _ in outs if re.match(r'(?:int|long|lapack_int)\b', pts[j])]
            for j, b in outs:
                if b is not None:
                    I.havoc(st, b)
                    if j not in ints:
                        st.setghost(K(1), 'out', self.owner(b))
            b = self.base(vs[-1])
            if b is None:
                self.unk(I, fr, n)
            else:
                e = fresh('info')
                I.store(st, b, e)
                st.setghost(e, 'info', 0)
            # routines with a range report how many pairs they found through the first integer they write
            if re.search(r'ev[rx]', n['n']) and len(ints) >= 2:
                b = self.base(vs[ints[0]])
                if b is not None:
                    m = fresh('found')
                    I.refine(st, m, Iv(0, INF, isint=True))
                    I.store(st, b, m)
                    st.setghost(m, 'found', 0)
            else:
                st.delghost('found', 0)
            return [(st, K(0))]
        if n.get('fid') in I.prog.fns or (n.get('pk') or '').startswith('c++/'):
            own = {self.owner(b) for b in map(self.base, list(vs) + [obj]) if b is not None}
            if any(st.ghost('out', o) is not None for o in own) and not I.quiet:
                self.later(I, st, fr, n)
        return None

    def unk(self, I, fr, n):
        if not I.quiet:
            self.bad('the status of the routine is tested', I, fr, n, f'{fr.fn.q} passes a status argument that cannot be followed')

    def later(self, I, st, fr, n):
        self.check(I, st, fr, n, 'to use its output')

    def check(self, I, st, fr, n, when):
        if self.good(I, st):
            self.bad('the status of the routine is tested', I, fr, n, f'{fr.fn.q} can go on {when} although an eigensolver call failed (nonzero status)')

    def on_start(self, I, st):
        st.setghost(K(0), 'info', 0)

    def signature(self, I, st):
        out = []
        for k in ('info', 'found'):
            for key, v in st.ghosts(k):
                c = I.iv(st, v)
                out.append((k, str(key), c.lo, c.hi))
        return hash(tuple(sorted(out)))

    def on_exit(self, I, st, status, fr, n, kind):
        if kind != 'return':
            self.count('exceptional ends')
            return
        self.site('normal ends', str(n.get('l')))
        self.check(I, st, fr, n, 'to a normal end')
        if st.ghost('found', 0) is not None and isinstance(status, L) and not self.enough(I, st, status):
            self.bad('no more pairs are used than were found', I, fr, n, f'{fr.fn.q} can return more eigenpairs than the routine found')

    def enough(self, I, st, v):
        m = st.ghost('found', 0)
        return I.decide(st, I.cmpterm('<=', st.get(tuple(v) + ('val', '#size')), m, False)) == 1

    def on_leave(self, I, nf, f, n, out):
        if not makes_eigen(f):
            return
        for st, v in out:
            if st.ghost('found', 0) is not None and isinstance(v, L):
                if self.enough(I, st, v):
                    st.delghost('found', 0)
                    if not I.quiet:
                        self.count('results of partial solutions')


class HT(H):
    """the same from main of a tool"""

    def on_exit(self, I, st, status, fr, n, kind):
        iv = I.iv(st, status)
        if iv.lo > 0 or iv.hi < 0 or iv.empty_num():
            self.count('failing ends')
            return
        self.site('normal ends', I.where(fr, n))
        self.check(I, st, fr, n, 'to exit status 0')


def makes_eigen(f):
    return 'RawEigen' in f.d.get('ret', '')


def body(rep):
    P = coredrv.core_prog()
    rep.rules = ['after an eigensolver call no normal end, no further eigensolver call and no use of its output is reached unless its status was found zero on that path',
                 'with a routine that solves for a part of the spectrum, the number of pairs returned is at most the number it reports']
    direct = [f for f in P.fns.values() if any(is_lapack(n) for n in f.N)]
    ids = {f.fid for f in direct}
    cand = [f for f in P.fns.values() if makes_eigen(f) and f.kind in ('fn', 'method') and ids & set(coredrv.reach(P, [f])) and any('matrix' in p['t'].lower() or 'Matrix' in p['t'] for p in f.params)]
    roots = [f for f in cand if not any(g is not f and f.fid in coredrv.reach(P, [g]) for g in cand)]
    cov = coredrv.reach(P, roots)
    roots += [f for f in direct if f.fid not in cov]
    for f in roots:
        h = coredrv.run_function(H, f, P, effects_on=False)
        coredrv.merge(rep, h)
        rep.count('solver functions analysed')
    tooldrv.run_tools(rep, HT, ['diag'], interp={'cap': 6})
    rep.need('eigensolver calls', 3)
    rep.need('solver functions analysed', 1)
    return 'Abstract interpretation of every function of the core that computes an eigensystem, and of the diag tool from main: each LAPACK eigensolver call returns an arbitrary status (and, for partial solutions, an arbitrary number of pairs found).'


if __name__ == '__main__':
    common.run('C05', body)
