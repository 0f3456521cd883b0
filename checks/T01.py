"""T01: a run during which some file could not be opened never ends with exit status 0."""
import common
import tooldrv
from terms import S, Term


class H(tooldrv.Hooks):
    """Ghost ('po', site) = the symbolic 'was opened' bit of an open that is not yet known to have succeeded."""

    def on_open(self, I, st, fr, n, loc, name, d, opened):
        site = (I.where(fr, n), d)
        key = ('po', site, str(name) if name.op in ('s', 'cat') and not name.vol else '')
        old = st.ghost(*key)
        if old is not None and I.iv(st, old).const() != 1:
            st.setghost(old, 'po', site, 'earlier')
        st.setghost(opened, *key)
        if I.quiet == 0:
            self.site('open sites', site)

    def resolve(self, I, st):
        for k, v in st.ghosts('po'):
            if I.iv(st, v).const() == 1:
                st.delghost('po', *k)

    def before_join(self, I, states):
        for s in states:
            self.resolve(I, s)

    def on_exit(self, I, st, status, fr, n, kind):
        if I.quiet:
            return
        self.site('exit points', (I.where(fr, n), kind))
        iv = I.iv(st, status)
        if iv.lo > 0 or iv.hi < 0 or iv.empty_num():
            return
        self.site('success exits', (I.where(fr, n), kind))
        for (site, nm), v in st.ghosts('po'):
            x = I.iv(st, v)
            if x.const() == 1:
                continue
            how = 'is known to have failed' if x.const() == 0 else 'may have failed'
            self.add(f'open:{site[0].split(":")[0]}:{site[1]}:{nm}', 'a failed open must not reach exit status 0', site[0],
                     f'opening {nm or "a file"} for {"reading" if site[1] == "in" else "writing"} {how} when the run ends with status 0 ({kind} at {I.where(fr, n)})')


def body(rep):
    rep.rules = ['every ifstream/ofstream/fopen open is either proved successful (its status was tested) or the path ends with a nonzero status']
    tooldrv.run_tools(rep, H)
    rep.need('open sites', 20)
    rep.need('success exits', 13)
    return ('Abstract interpretation of the 13 tools from main: every file open introduces an unknown outcome; at each exit whose status can be 0 no '
            'open may be unresolved or failed. Counts give open sites, exits and interpreted functions.')


if __name__ == '__main__':
    common.run('T01', body)
