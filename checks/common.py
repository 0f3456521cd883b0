"""Shared driver: extraction of /repo's current sources, reporting, evidence, known findings."""
import hashlib
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('NRG_REPO', '/repo')
CACHE = os.environ.get('NRG_CACHE') or os.path.join(VERIF, 'cache')
NRGX = os.path.join(VERIF, 'build', 'nrgx')
TOOLS = ['adapt', 'binavg', 'bw', 'diag', 'hilb', 'intavg', 'integ', 'kk', 'matrix', 'mats', 'nrgchain', 'specmoments', 'tdavg']
if os.environ.get("NRG_TOOLS"):
    TOOLS = os.environ["NRG_TOOLS"].split(",")  # development only
MAINFILE = {t: f'tools/{t}/{t}.cc' for t in TOOLS}
MAINFILE['matrix'] = 'tools/matrix/parser.cc'
TFLAGS = ['-std=gnu++20', '-DNDEBUG', '-w', '-Ic++', '-Ic++/include', '-Itools', '-Itools/nrgchain', '-isystem', '/usr/include/eigen3', '-I' + os.path.join(VERIF, 'stubs')]
CFLAGS = ['-std=gnu++20', '-DNDEBUG', '-w', '-Ic++', '-Ic++/include', '-Ic++/symmetry', '-Ic++/symmetry/coefnew', '-isystem', '/usr/include/eigen3',
          '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-I' + os.path.join(VERIF, 'stubs'), '-DNRG_SYM_BASIC', '-DNRG_SYM_MORE', '-DNRG_SYM_ALL',
          '-DNRG_ENABLE_CUDA=0', '-DNRG_HAVE_OPENBLAS=1', '-DNRG_HAVE_MKL=0']


class Broken(Exception):
    """the analysis itself could not be carried out (error exit, never a verdict)"""


def sha(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def ensure_nrgx():
    src = os.path.join(VERIF, 'extractor', 'nrgx.cc')
    stamp = NRGX + '.sha'
    want = sha(src)
    if os.path.exists(NRGX) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    r = subprocess.run(['make', '-C', os.path.join(VERIF, 'extractor'), '-s'], capture_output=True, text=True)
    if r.returncode or not os.path.exists(NRGX):
        raise Broken('cannot build the extractor:\n' + r.stdout + r.stderr)
    with open(stamp, 'w') as f:
        f.write(want)


_tree = {}


def tree_hash(subs):
    key = tuple(subs)
    if key in _tree:
        return _tree[key]
    h = hashlib.sha256()
    for sub in subs:
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, sub))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.cc', '.hpp', '.h', '.hh', '.cpp', '.yy', '.lex', '.in', '.txt', '.dat')):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(sha(p).encode())
    _tree[key] = h.hexdigest()
    return _tree[key]


def extract(src, flags, subs, tag, inst=None, nocfg=True, maxnodes=None):
    """run nrgx on one translation unit of the current tree -> parsed JSON"""
    ensure_nrgx()
    full = os.path.join(REPO, src)
    if not os.path.exists(full):
        raise Broken(f'source file {src} does not exist')
    key = hashlib.sha256('|'.join([tree_hash(subs), sha(NRGX), src, ' '.join(flags), tag, str(inst), str(nocfg), str(maxnodes), REPO]).encode()).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, f'{tag}-{key}.json')
    if not os.path.exists(out):
        for f in os.listdir(CACHE):
            if f.startswith(tag + '-') and f.endswith('.json'):
                try:
                    os.unlink(os.path.join(CACHE, f))
                except OSError:
                    pass
        env = dict(os.environ)
        if nocfg:
            env['NRGX_NOCFG'] = '1'
        if maxnodes:
            env['NRGX_MAXNODES'] = str(maxnodes)
        if inst:
            env['NRGX_INST'] = str(inst)
        tmp = out + f'.{os.getpid()}.tmp'
        r = subprocess.run([NRGX, REPO, tmp, src, '--'] + flags, cwd=REPO, env=env, capture_output=True, text=True)
        if not os.path.exists(tmp):
            raise Broken(f'extraction of {src} failed: ' + (r.stderr or r.stdout)[-2000:])
        os.rename(tmp, out)
    with open(out) as f:
        d = json.load(f)
    if d.get('errors'):
        raise Broken(f'{src} does not parse ({d["errors"]} errors)')
    return d


EXTRA = {'matrix': ['tools/matrix/matrix.cc']}


def tool_data(t):
    return extract(MAINFILE[t], TFLAGS, ['tools', 'c++'], 'tool_' + t)


def tool_prog(t):
    import absint
    more = [extract(s, TFLAGS, ['tools', 'c++'], f'tool_{t}_{k}') for k, s in enumerate(EXTRA.get(t, []))]
    return absint.Prog(tool_data(t), *more)


def parallel(fn, items, n=8):
    """map in separate processes (the interpreter keeps global term tables)"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    with ctx.Pool(min(n, len(items))) as p:
        return p.map(fn, items, chunksize=1)


# ------------------------------------------------------------------ reporting
class Finding:
    def __init__(self, key, rule, where, text):
        self.key, self.rule, self.where, self.text = key, rule, where, text

    def d(self):
        return {'key': self.key, 'rule': self.rule, 'where': self.where, 'text': self.text}


def rel(p):
    p = str(p)
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e['key']: e for e in json.load(f)['findings'] if e['property'] == prop and e.get('status', 'open') == 'open'}


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.findings = {}
        self.counts = {}
        self.details = {}
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.rules = []
        self.broken = []  # reasons why silence would not mean that the property holds

    def add(self, key, rule, where, text):
        if key not in self.findings:
            self.findings[key] = Finding(key, rule, rel(where), text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, least):
        if self.counts.get(name, 0) < least:
            self.broken.append(f'{name}: {self.counts.get(name, 0)} analysed, at least {least} expected')

    def finish(self, explanation):
        kn = known(self.prop)
        viol = [f for f in self.findings.values() if f.key not in kn]
        old = [f for f in self.findings.values() if f.key in kn]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'wall_s': round(time.time() - self.t0, 2),
              'coverage': {'explanation': explanation, 'counts': self.counts, 'rules': self.rules, 'details': self.details,
                           'violations': [f.d() for f in viol], 'known': [f.d() for f in old]}}
        d = os.environ.get('NRG_EVID') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k, v in sorted(self.counts.items()):
            print(f'  {k}: {v}')
        for f in old:
            print(f'KNOWN-FINDING: property={self.prop} {f.where}: {f.text}')
        if viol:
            rp = os.path.join(d, self.prop + '.violation.txt')
            with open(rp, 'w') as fo:
                for f in viol:
                    fo.write(f'{f.where}: [{f.rule}] {f.text}\n    key: {f.key}\n')
            for f in viol:
                print(f'{f.where}: [{f.rule}] {f.text}')
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        if self.broken and not os.environ.get('NRG_TOOLS'):
            raise Broken('; '.join(self.broken))
        print(f'OK property={self.prop} ({ev["wall_s"]} s)')
        return 0


def run(prop, body):
    """body(report) -> explanation"""
    rep = Report(prop)
    try:
        ex = body(rep)
        rc = rep.finish(ex)
    except Broken as e:
        print(f'ANALYSIS-BROKEN property={prop}: {e}')
        rc = 3
    sys.exit(rc)
