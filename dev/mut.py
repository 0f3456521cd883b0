#!/usr/bin/env python3
"""mut.py PROP FILE 'old' 'new' [FILE old new ...]: run the check of PROP on a scratch copy of the sources with the replacement made"""
import os, shutil, subprocess, sys, tempfile
prop, rest = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
try:
    subprocess.run(f'cp -a /repo/. {d}/', shell=True, check=True) if os.environ.get('MUT_FULL') else subprocess.run(f'cd /repo && git archive HEAD | tar x -C {d} && cp -a _build {d}/ 2>/dev/null', shell=True)
    for i in range(0, len(rest), 3):
        f, a, b = rest[i:i + 3]
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(a) >= 1, f'{f}: not found: {a}'
        open(p, 'w').write(s.replace(a, b, 1))
    env = dict(os.environ, NRG_REPO=d, NRG_CACHE=d + '/.cache', NRG_EVID=d + '/.ev')
    os.makedirs(d + '/.cache'); os.makedirs(d + '/.ev')
    for pr in prop.split(','):
        r = subprocess.run([sys.executable, f'/verif/checks/{pr}.py'], env=env, capture_output=True, text=True)
        print(pr, 'exit', r.returncode, r.stdout[-700:], r.stderr[-500:])
finally:
    shutil.rmtree(d)
