"""T02: no exit status 0 after a caught top-level exception, a reported fatal error, or before the work is done (help and version excepted)."""
import re

import common
import tooldrv
from terms import S, K, isnum
from absint import L

# an integer variable of the analysis: 1 once an error text was written (keeps its relation to the program's own error flags)
ERRBIT = (('g', '#errbit'),)
HELP = ('-h', '--help', '-V', '--version', '-help', 'help')
HELPCH = (ord('h'), ord('V'), ord('?'))
ERR = re.compile(r"can't|cannot|can not|could not|couldn't|error|fail|invalid|unable|mismatch|too many|too few|too small|too large|illegal|wrong|missing|unknown|unexpected|unsupported|out of range|"
                 r"not (a|an|in|of|be|found|allowed|positive|defined|given|supported|equal|implemented|available)\b|must |should |incorrect|inconsistent|abort|bug\b|exceed", re.I)
# messages that announce a condition from which the tool recovers by design (frozen list; see DESIGN.md)
WARN = re.compile(r'^\s*(warning|buggy dsyev)', re.I)


class H(tooldrv.Hooks):
    """Must-ghosts: 'nowork' (nothing read or computed so far), 'nohelp' (no help/version request seen).
    May-ghosts: 'caught' (exception caught in main), 'err' (error text written to stderr or stdout)."""

    def on_start(self, I, st):
        st.setghost(S('1'), 'nowork')
        st.setghost(S('1'), 'nohelp')
        I.store(st, ERRBIT, K(0))

    def on_catch(self, I, st, fr, h, t):
        if fr.fn.q == 'main' or I.try_depth == 0:
            st.setghost(S('1'), 'caught', I.where(fr, h))

    def signature(self, I, st):
        return (bool(st.ghosts('caught')), bool(st.ghosts('err')))

    def on_input(self, I, st, fr, n, loc, tgt, new, ok):
        if loc is None or st.raw(loc + ('#dir',)) is not S('str'):
            st.delghost('nowork')

    def on_open(self, I, st, fr, n, loc, name, d, opened):
        st.delghost('nowork')

    def on_machine(self, I, st, fr, n, f, rv):
        """generated parser: reads the input; a nonzero result means that the input was rejected"""
        st.delghost('nowork')
        if f.n == 'yyparse':
            st.setghost(rv, 'parser', I.where(fr, n))

    def on_eq(self, I, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y.op == 's' and y.a[0] in HELP:
                st.delghost('nohelp')
            if isnum(y) and y.a[0] in HELPCH and 'getopt' in str(x):
                st.delghost('nohelp')

    def on_write(self, I, st, fr, n, loc, v, t):
        nm = st.raw(loc + ('#name',))
        d = st.raw(loc + ('#dir',))
        text = v.a[0] if not isinstance(v, L) and v.op == 's' else ' '.join(x.a[0] for x in v.a if x.op == 's') if not isinstance(v, L) and v.op == 'cat' else None
        if text is None:
            if d is not S('str') and nm not in (S('std::cerr'), S('std::clog')):
                st.delghost('nowork')
            return
        if nm in (S('std::cerr'), S('std::clog'), S('std::cout')):
            self.message(I, st, I.where(fr, n), text, nm is not S('std::cout'))

    def message(self, I, st, where, text, err):
        if I.quiet == 0:
            self.site('messages', (where, text))
        if not isinstance(text, str) or not ERR.search(text) or re.search(r'=\s*$', text) or WARN.search(text) or re.match(r'\s*usage', text, re.I):
            return
        if not err and ('\n' in text.strip() or not re.search(r"can't|cannot|error|fail|invalid|illegal", text, re.I)):
            return
        st.setghost(S(where), 'err', text.strip())
        I.store(st, ERRBIT, K(1))

    def on_summary(self, I, st, fr, n, f, e):
        for m in e.msgs:
            self.message(I, st, f'{f.file}:{f.line}', m, True)

    def on_exit(self, I, st, status, fr, n, kind):
        if I.quiet:
            return
        iv = I.iv(st, status)
        self.site('exit points', (I.where(fr, n), kind))
        if iv.lo > 0 or iv.hi < 0 or iv.empty_num():
            return
        self.site('success exits', (I.where(fr, n), kind))
        for k, v in st.ghosts('caught'):
            self.add(f'caught:{fr.fn.q}', 'a caught exception must not end in status 0', k[0], f'exception handler is followed by exit status 0 ({kind} at {I.where(fr, n)})')
        for k, v in st.ghosts('err') if I.iv(st, st.get(ERRBIT)).const() != 0 else ():
            self.add(f'msg:{k[0]}', 'a reported error must not end in status 0', v.a[0] if v.op == 's' else I.where(fr, n),
                     f'error message "{k[0]}" is followed by exit status 0 ({kind} at {I.where(fr, n)})')
        for k, v in st.ghosts('parser'):
            x = I.iv(st, v)
            if x.const() != 0:
                self.add(f'parser:{fr.fn.q}', 'a rejected input must not end in status 0', k[0], f'the result of the parser is not tested: a syntax error ends with status 0 ({kind} at {I.where(fr, n)})')
        if st.ghost('nowork') is not None and st.ghost('nohelp') is not None:
            self.add(f'nowork:{fr.fn.q}', 'status 0 without having done any work', I.where(fr, n), f'the run can end with status 0 ({kind} in {fr.fn.q}) without reading any input and without a help request')


def body(rep):
    rep.rules = ['exit status 0 is unreachable after a handler of main', 'exit status 0 is unreachable after an error message', 'exit status 0 implies that input was read or data written, or that help/version was requested']
    tooldrv.run_tools(rep, H)
    rep.need('success exits', 13)
    rep.need('exit points', 60)
    return 'Abstract interpretation of the 13 tools; obligations at every exit whose status can be 0.'


if __name__ == '__main__':
    common.run('T02', body)
