"""T07: floating-point numbers go to result files (and to the standard output as results) with at least 16 significant digits."""
import re

import common
import tooldrv
from terms import S, K, Term, isnum
from absint import L, strip_t

FLT = ('double', 'long double', 'std::complex<double>', 'complex<double>')


def walk(t, d=0):
    yield t
    if d < 8:
        for x in t.a:
            if isinstance(x, Term):
                yield from walk(x, d + 1)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Term):
                                yield from walk(z, d + 1)
                    elif isinstance(y, Term):
                        yield from walk(y, d + 1)


def labelled(fr, n, d=0):
    """does the same output statement contain a text with letters (a message rather than a bare result)?"""
    f = fr.fn
    top = n
    # the whole chain to the left
    while top['k'] in ('opcall', 'call', 'mcall', 'cast') and top.get('c'):
        for c in top['c'][1:]:
            x = f.N[c] if c is not None and c >= 0 else {}
            while x.get('k') == 'cast' and x.get('c'):
                x = f.N[x['c'][0]]
            if x.get('k') == 'str' and re.search('[A-Za-z]', x.get('v', '')):
                return True
        top = f.N[top['c'][0]]
    return False


class H(tooldrv.Hooks):
    def on_write(self, I, st, fr, n, loc, v, t):
        if I.quiet:
            return
        t = strip_t(t)
        d = st.raw(loc + ('#dir',))
        nm = st.raw(loc + ('#name',))
        where = I.where(fr, n)
        if d is S('str') or nm in (S('std::cerr'), S('std::clog')):
            return
        std = d is S('std')
        if not isinstance(v, L):
            low = [x for x in walk(v) if x.op == 'fn' and x.a[0] in ('lowprec', 'f32')]
            if low and not (std and (v.op == 'cat' and any(x.op == 's' and re.search('[A-Za-z]', x.a[0]) for x in v.a) or labelled(fr, n))):
                self.add(f'text:{fr.fn.q}', 'no number with fewer digits is written', where, 'a number that was converted to a text or type with fewer than 16 significant digits is written to a result file')
        if t == 'float':
            self.add(f'float:{fr.fn.q}', 'no number with fewer digits is written', where, 'a single-precision number is written')
            return
        if not (t in FLT or 'complex<' in t or t.startswith('Eigen::')):
            return
        if std and labelled(fr, n):
            return
        p = I.iv(st, st.get(loc + ('#prec',)))
        fmt = st.raw(loc + ('#fmt',))
        self.site('numbers written', where)
        self.notes.append(f'{where} {nm} {p}')
        if fmt is S('hexfloat'):
            return
        if fmt is S('fixed'):
            self.add(f'fixed:{fr.fn.q}', 'no fixed-point notation in result files', where, 'a number is written in fixed-point notation, where small numbers lose significant digits')
        if p.lo < 16:
            self.add(f'prec:{fr.fn.q}:{nm if std else d}', 'precision at least 16 where a floating-point number is written', where, f'{nm if std else d}: a number is written with {p} significant digits')


def formatted(P, tool):
    """C-style output with floating-point arguments"""
    out = []
    for f in P.fns.values():
        for n in f.N:
            if n['k'] != 'call' or n.get('n') not in ('printf', 'fprintf', 'sprintf', 'snprintf', 'format', 'format_to', 'print', 'to_chars'):
                continue
            if '/gsl' in f.file or not f.file.startswith('tools/') or f.n.startswith('yy'):
                continue
            args = [f.N[c] for c in n['c'] if c is not None and c >= 0]
            fl = [a for a in args if strip_t(a.get('t', '')) in ('double', 'float', 'long double')]
            txt = [a.get('v', '') for a in args for a in ([a] if a['k'] == 'str' else [f.N[c] for c in a.get('c', []) if c is not None and c >= 0 and f.N[c]['k'] == 'str'])]
            if n['n'] in ('fprintf',) and any('stderr' in str(a.get('n', '')) + str(a.get('q', '')) for a in args):
                continue
            if fl and txt and not all(int(m or 0) >= 16 for x in txt for m in re.findall(r'%[-+ #0]*\d*(?:\.(\d+))?[eEgG]', x)) or fl and txt and re.search(r'%[-+ #0]*\d*(\.\d+)?l?f', ' '.join(txt)):
                out.append((f, n))
    return out


def more(t):
    P = common.tool_prog(t)
    return t, [(f.q, f'{f.file}:{n["l"]}') for f, n in formatted(P, t)]


def body(rep):
    rep.rules = ['stream precision >= 16 at every insertion of a floating-point value into a result file or, unlabelled, into the standard output',
                 'no text made from a floating-point value with a lower precision (string stream, to_string, printf, float) is inserted']
    tooldrv.run_tools(rep, H, eff={'stdout_events': True})
    for t, l in common.parallel(more, common.TOOLS):
        for q, w in l:
            rep.add(f'{t}:printf:{q}', 'no number with fewer digits is written', w, f'{t}: a number is formatted with fewer than 16 significant digits')
    rep.need('numbers written', 20)
    return 'Abstract interpretation with the precision as part of the stream state; obligation at every insertion of a floating-point value into a file or, outside messages, the standard output.'


if __name__ == '__main__':
    common.run('T07', body)
