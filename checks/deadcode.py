"""Development aid: statements that the interpreter considers unreachable (to find over-pruning in models)."""
import sys
import absint
import common
import tooldrv


def run(t):
    seen = set()
    fns = {}
    o = absint.Interp.ex

    def ex(self, i, st, fr):
        if self.quiet == 0:
            seen.add((fr.fn.fid, i))
        fns[fr.fn.fid] = fr.fn
        return o(self, i, st, fr)
    absint.Interp.ex = ex
    _, _, _, _, err = tooldrv.one((tooldrv.Hooks, t, {}))
    out = [str(err)] if err else []
    for fid, f in fns.items():
        if not hasattr(f, 'N') or f.file.split('/')[0] != 'tools' or f.n.startswith('yy'):
            continue
        par = {}
        for j, n in enumerate(f.N):
            for c in n.get('c', []):
                if c is not None and c >= 0:
                    par[c] = j
        for j, n in enumerate(f.N):
            if n['k'] in ('block', 'seq') or (fid, j) in seen:
                continue
            p = par.get(j)
            if p is None or f.N[p]['k'] not in ('block', 'if', 'for', 'while', 'do', 'rangefor'):
                continue
            if f.N[p]['k'] == 'if' and f.N[p]['c'][0] == j or f.N[p]['k'] in ('for', 'while', 'do', 'rangefor') and n['k'] not in ('call', 'mcall', 'opcall', 'block', 'if', 'for', 'return'):
                continue
            pp = p
            out.append(f'{t} {f.q} {f.file}:{n.get("l")} {n["k"]}')
    return out


if __name__ == '__main__':
    for r in common.parallel(run, sys.argv[1:] or common.TOOLS):
        print('\n'.join(r))
