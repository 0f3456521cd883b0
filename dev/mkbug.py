"""dev aid: mkbug.py ID PROP -- reads a spec (python) from stdin: EDITS=[(file, old, new)], DEMO='...', NEEDS, BREAKS; writes /verif/seeded/ID"""
import json, os, subprocess, sys
bid, prop = sys.argv[1:3]
g = {}
exec(sys.stdin.read(), g)
d = f'/verif/seeded/{bid}'
os.makedirs(d, exist_ok=True)
w = f'/tmp/mk.{bid}'
subprocess.run(['rm', '-rf', w]); os.makedirs(w)
out = ''
for f in sorted({e[0] for e in g['EDITS']}):
    s = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout
    for e in g['EDITS']:
        if e[0] == f:
            assert s.count(e[1]) == (e[3] if len(e) > 3 else 1), (f, e[1], s.count(e[1]))
            s = s.replace(e[1], e[2])
    os.makedirs(os.path.dirname(f'{w}/{f}'), exist_ok=True)
    open(f'{w}/{f}', 'w').write(s)
subprocess.run(f'mkdir -p {w}/.g && cd {w}/.g && git init -q && for f in ' + ' '.join(sorted({e[0] for e in g["EDITS"]})) + '; do mkdir -p $(dirname $f); git -C /repo show HEAD:$f > $f; done; git add -A; git -c user.name=a -c user.email=a@b commit -qm x; for f in ' + ' '.join(sorted({e[0] for e in g["EDITS"]})) + f'; do cp {w}/$f $f; done; git diff > {d}/patch.diff', shell=True, check=True)
subprocess.run(['rm', '-rf', w])
head = '#!/bin/bash\n# run with cwd /repo after the build; exit 0 if the property holds\nB="$PWD/_build/tools"; here="$(cd "$(dirname "$0")" && pwd)"; REPO="$PWD"\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT; cd "$T" || exit 1\n'
if 'CC' in g:
    open(f'{d}/demo.cc', 'w').write(g['CC'].lstrip())
    subprocess.run(['cp', '-rT', '/verif/dev/corestubs', f'{d}/stubs'], check=True)
    head += 'g++ -O0 -std=gnu++20 -DNDEBUG -w -DFMT_HEADER_ONLY -I"$REPO/c++" -I"$REPO/c++/include" -I"$REPO/c++/symmetry" -I"$REPO/c++/symmetry/coefnew" -isystem /usr/include/eigen3 -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -I"$here/stubs" -DNRG_SYM_BASIC -DNRG_ENABLE_CUDA=0 -DNRG_HAVE_OPENBLAS=1 -DNRG_HAVE_MKL=0 -o demo "$here/demo.cc" ' + g.get('SRC', '') + ' -lboost_serialization -lboost_mpi -lmpi -lmpi_cxx -lopenblas -llapack -lgsl -lboost_system || exit 1\n'
if 'FULL' in g:
    subprocess.run(['cp', '-rT', '/verif/dev/corestubs', f'{d}/stubs'], check=True)
    subprocess.run(['cp', '/verif/dev/buildnrg.sh', f'{d}/buildnrg.sh'], check=True)
    head += 'export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1\nmkdir obj && cd obj && bash "$here/buildnrg.sh" "$REPO" "$here/stubs" > log 2>&1; cd "$T"\nN="$T/obj/nrg"; [ -x "$N" ] || { tail "$T"/obj/log "$T"/obj/*.err; exit 1; }\n'
open(f'{d}/demo.sh', 'w').write(head + g['DEMO'].lstrip('\n'))
os.chmod(f'{d}/demo.sh', 0o755)
json.dump({'property': prop, 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
