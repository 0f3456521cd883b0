"""T10: argv[i] is only read where i < argc is certain."""
import common
import tooldrv
from terms import sub


class H(tooldrv.Hooks):
    def on_argv(self, I, st, fr, n, idx):
        if I.quiet:
            return
        self.site('argument reads', I.where(fr, n))
        d = I.iv(st, sub(I.argc, idx))
        lo = I.iv(st, idx)
        if d.empty_num() or lo.empty_num():
            return
        if d.lo < 1 or lo.lo < 0:
            self.add(f'argv:{tooldrv.fnq(fr)}', 'argument index must be below argc', I.where(fr, n),
                     f'argument {idx!r} may be read although it was not supplied (argc - index may be {d.lo:g})')


def body(rep):
    rep.rules = ['at every read argv[i] on every path: 0 <= i < argc']
    tooldrv.run_tools(rep, H)
    rep.need('argument reads', 25)
    return ('Abstract interpretation with linear relations between argc, optind and index variables; obligation at every argv element read.')


if __name__ == '__main__':
    common.run('T10', body)
