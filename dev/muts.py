#!/usr/bin/env python3
"""muts.py PROP SPECFILE [jobs]: SPECFILE defines M = [(name, expect, [(file, old, new), ...]), ...]; expect 'v' (violation) or 'q' (quiet)"""
import concurrent.futures as cf, subprocess, sys
prop, spec = sys.argv[1], sys.argv[2]
ns = {}
exec(open(spec).read(), ns)
def one(m):
    name, exp, eds = m
    a = [x for e in eds for x in e]
    r = subprocess.run([sys.executable, '/verif/dev/mut.py', prop] + a, capture_output=True, text=True)
    out = r.stdout + r.stderr[-300:]
    got = 'v' if 'VIOLATION' in out else 'q' if 'exit 0' in out else '?'
    lines = [l for l in out.split('\n') if ': [' in l]
    return f'{"ok " if got == exp else "BAD"} {name}: {got} ' + (' | '.join(lines)[:260] if got == 'v' else '' if got == 'q' else out[-500:])
only = sys.argv[4:] 
with cf.ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 5) as ex:
    for o in ex.map(one, [m for m in ns['M'] if not only or m[0] in only]):
        print(o, flush=True)
