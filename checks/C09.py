"""C09: the working directory is unique, private and removed."""
import os
import re
import subprocess
import tempfile

import absint
import common
import coredrv
import effects
from terms import K, S, Term, fresh
from absint import L, Frame, St, strip_t, AnalysisBroken

MAKE = ('mkdtemp', 'mkdir', 'create_directory', 'create_directories', 'mktemp', 'tmpnam', 'tempnam', 'mkstemp')
MODE = ('chmod', 'fchmod', 'permissions', 'umask')
WIPE = ('remove_all', 'system', 'nftw', 'execl', 'execv', 'execvp', 'popen')


def ext(P, n, names):
    return n['k'] == 'call' and n.get('n') in names and n.get('fid') not in P.fns


class H(coredrv.Hooks):
    ctor = None

    def bad(self, rule, I, fr, n, text):
        self.add(rule, rule, I.where(fr, n), text)

    def content(self, I, st, v):
        """text that a character pointer or string argument leads to"""
        x = v
        if isinstance(x, L):
            x = I.load(st, x)
        if isinstance(x, Term) and x.op == 'addr':
            for k, t in st.ghosts('text'):
                if k[-1] == x:
                    return t
            r = st.raw(tuple(x.a[0]))
            return r
        return x if isinstance(x, Term) else None

    def on_call(self, I, st, fr, i, n, name, vs, obj):
        b = n.get('n')
        if b in ('strcpy', 'strncpy', 'memcpy', 'memmove', 'strdup', 'strlcpy', 'snprintf', 'sprintf') and len(vs) >= 2 and isinstance(vs[0], Term) and vs[0].op == 'addr':
            src = self.content(I, st, vs[1])
            cut = False
            if b in ('strncpy', 'memcpy', 'memmove') and src is not None and len(vs) > 2:
                ln = I.load(st, vs[2]) if isinstance(vs[2], L) else vs[2]
                full = mk_len(src)
                cut = full is not None and I.decide(st, I.cmpterm('<=', full, ln, 'i')) == 0
            st.setghost(S('(truncated)') if cut else (src if src is not None and src.op in ('s', 'cat') else K(0)), 'text', vs[0])
        if b in MAKE and n.get('fid') not in I.prog.fns:
            if b != 'mkdtemp':
                self.bad('the directory is unique and private', I, fr, n, f'{self.tool} creates the directory with {b}')
                return None
            if not I.quiet:
                self.site('directory creations', I.where(fr, n))
            t = self.content(I, st, vs[0])
            tail = t.a[-1] if t is not None and t.op == 'cat' else t
            if t is not None and t.op in ('s', 'cat') and not (tail.op == 's' and tail.a[0].endswith('XXXXXX')) and not I.quiet:
                if tail.op == 's':
                    self.bad('the directory is unique and private', I, fr, n, f'{self.tool} uses a template that does not end in XXXXXX')
            if any(True for _ in st.ghosts('made')) and not I.quiet:
                self.bad('the directory is removed', I, fr, n, f'{self.tool} creates a second directory')
            bad = st.copy()
            bad.setghost(K(1), 'failed', 0)
            w = fresh('dir')
            if not I.assume(st, I.cmpterm('==', w, K(0), 'i'), False):
                raise AnalysisBroken('mkdtemp')
            st.setghost(w, 'made', 0)
            return [(bad, K(0)), (st, w)]
        return None

    def on_fs(self, I, st, fr, n, op, names, e):
        if I.quiet:
            return
        self.site('file system operations', I.where(fr, n))
        w = st.ghost('made', 0)
        if names[0] is not w:
            if op in ('remove', 'unlink', 'remove_all', 'rmdir', 'rename'):
                self.bad('only the directory itself is removed', I, fr, n, f'{self.tool} uses {op} on something else than the directory it created')
            return
        if op == 'remove_all':
            st.setghost(e, 'gone', 0)
        elif op in ('rename',):
            self.bad('only the directory itself is removed', I, fr, n, f'{self.tool} renames the directory')

    def signature(self, I, st):
        w = st.ghost('made', 0)
        return hash((w is None, st.ghost('failed', 0) is None, st.ghost('gone', 0) is None))

    def on_exit(self, I, st, status, fr, n, kind):
        pass


def mk_len(t):
    from models import slen
    return slen(t)


def null(I, st, w):
    return I.decide(st, I.cmpterm('==', w, K(0), 'i'))


def lifetime(rep, P, f, dtor, cls):
    """construct, destroy"""
    h = H(f.q)
    I = coredrv.CoreInterp(P, h, libthrow='all')
    h.I = I
    h.phase = 'start'
    rets = I.run_function(f)
    fr = Frame(f, 0, 0)
    here = {'l': f.line, 'c': []}
    this = (('root', 'this'),)
    for s, t in I.sink[0]:
        h.count('failing constructions')
        w = s.ghost('made', 0)
        if w is not None and str(t) != 'lib' and s.ghost('gone', 0) is None:
            h.bad('the directory is removed', I, fr, here, f'{f.q} can fail after it has created the directory')
    I.sink[0] = []
    n = 0
    for s, v in rets:
        w = s.ghost('made', 0)
        h.count('successful constructions')
        if w is None and s.ghost('failed', 0) is None:
            h.bad('the directory is unique and private', I, fr, here, f'{f.q} can succeed without having created a directory of its own')
            continue
        if s.ghost('failed', 0) is not None:
            h.bad('failure to create it is reported', I, fr, here, f'{f.q} can succeed although the directory could not be created')
            continue
        if not I.assume(s, I.cmpterm('==', w, S(''), 's'), False):
            continue
        if not any(v is w for b, k in ((this[0], x) for x in s.env.get(this[0], {})) for v in [s.env[b][k]]):
            h.bad('the directory is removed', I, fr, here, f'{f.q} does not keep the name of the directory it created')
            continue
        if dtor is None:
            h.bad('the directory is removed', I, fr, here, f'{cls["q"]} has no destructor')
            continue
        h.phase = 'end'
        gen = [s]
        for _ in I.inline(dtor, s.copy(), None, 0, here, [], this=this):
            s2 = _[0]
            n += 1
            if s2.ghost('gone', 0) is None:
                h.bad('the directory is removed', I, Frame(dtor, 0, 0), {'l': dtor.line}, f'{dtor.q} can return without having removed the directory')
        for s2, t in I.sink[0]:
            h.bad('the directory is removed', I, Frame(dtor, 0, 0), {'l': dtor.line}, f'{dtor.q} can end with an exception') if not dtor.d.get('noexcept', True) else None
        I.sink[0] = []
        # any public operation in between must not give up the directory
        for m in P.fns.values():
            if m.kind == 'method' and m.d.get('clsid') == f.d.get('clsid') and not m.n.startswith('operator') and not m.d.get('static'):
                vs = []
                for p in m.params:
                    vs.append(L((('root', p['n']),)) if I.kind(p['t']) in ('obj', 'str', 'stream', 'vec') or '&' in p['t'] else I.fresh_of(p['t'], p['n']))
                h.phase = 'mid'
                mids = I.inline(m, s.copy(), None, 0, here, vs, this=this)
                I.sink[0] = []
                h.phase = 'end'
                for s3, _ in mids:
                    for s4, _ in I.inline(dtor, s3, None, 0, here, [], this=this):
                        n += 1
                        if s4.ghost('gone', 0) is None:
                            h.bad('the directory is removed', I, Frame(m, 0, 0), {'l': m.line}, f'after {m.q} the destructor can return without having removed the directory')
                    I.sink[0] = []
    h.count('lifetimes followed', n)
    coredrv.merge(rep, h)


WIT = '''#include <type_traits>
#include <memory>
#include "%s"
using T = %s;
static_assert(!std::is_copy_constructible_v<T>, "WITNESS copied");
static_assert(!std::is_copy_assignable_v<T>, "WITNESS assigned");
static_assert(!std::is_move_constructible_v<T> || !std::is_trivially_move_constructible_v<T> && %d, "WITNESS moved");
static_assert(!std::is_move_assignable_v<T> || %d, "WITNESS move-assigned");
static_assert(std::is_destructible_v<T>, "WITNESS destroyed");
'''


def witness(rep, P, cls, file):
    own = [g for g in P.fns.values() if g.d.get('clsid') == cls['id']]
    mc = any(g.kind == 'ctor' and len(g.params) == 1 and '&&' in g.params[0]['t'] and cls['q'].split('::')[-1] in g.params[0]['t'] for g in own)
    ma = any(g.n == 'operator=' and g.params and '&&' in g.params[0]['t'] for g in own)
    with tempfile.NamedTemporaryFile('w', suffix='.cc', dir=os.environ.get('TMPDIR', '/tmp'), delete=False) as f:
        f.write(WIT % (os.path.basename(file), cls['q'], mc, ma))
    try:
        r = subprocess.run(['clang++', '-fsyntax-only'] + common.CFLAGS + [f.name], cwd=common.REPO, capture_output=True, text=True)
    finally:
        os.unlink(f.name)
    rep.count('compile-time witnesses', 5)
    for what in ('copied', 'assigned', 'moved', 'move-assigned'):
        if 'WITNESS ' + what in r.stderr and f'"WITNESS {what}"' not in r.stderr or f'WITNESS {what}\n' in r.stderr:
            rep.add(f'own:{what}', 'ownership cannot be duplicated', f'{file}:{cls.get("line", 1)}', f'{cls["q"]} can be {what}')
    if r.returncode and 'WITNESS' not in r.stderr:
        raise common.Broken('the witness does not compile: ' + r.stderr[-500:])


def body(rep):
    P = coredrv.core_prog()
    rep.rules = ['the directory is created with mkdtemp from a template that ends in XXXXXX; if that fails the constructor of the owner throws; the owner keeps exactly the returned name',
                 'the destructor of the owner removes that directory, recursively, and nothing else, on every path and after every other operation on the owner',
                 'the owner can be neither copied nor moved (compile-time witness); no other code of the core removes trees or changes modes']
    makers = {f.fid for f in P.fns.values() if any(ext(P, n, MAKE) for n in f.N)}
    rep.count('functions that create directories', len(makers))
    cov = {}
    done = set()
    owners = 0
    for f in list(P.fns.values()):
        if f.kind != 'ctor' or f.d.get('clsid') in done:
            continue
        if not makers & set(coredrv.reach(P, [f])):
            continue
        cls = next((c for c in P.classes.values() if c['id'] == f.d.get('clsid')), None)
        dtor = next((g for g in P.fns.values() if g.kind == 'dtor' and g.d.get('clsid') == f.d.get('clsid')), None)
        # an owner creates the directory itself, not through a member that is an owner of its own
        direct = [g for g in coredrv.reach(P, [f]).values() if g.fid in makers]
        via = [g for g in coredrv.reach(P, [f]).values() if g.kind == 'ctor' and g.d.get('clsid') != f.d.get('clsid') and makers & set(coredrv.reach(P, [g]))]
        if via:
            continue
        done.add(f.d.get('clsid'))
        owners += 1
        for g in P.fns.values():
            if g.kind == 'ctor' and g.d.get('clsid') == f.d.get('clsid') and makers & set(coredrv.reach(P, [g])):
                lifetime(rep, P, g, dtor, cls)
                cov |= coredrv.reach(P, [g])
        if dtor is not None:
            cov |= coredrv.reach(P, [dtor])
        witness(rep, P, cls, f.file)
        for g in P.fns.values():
            if g.d.get('clsid') == f.d.get('clsid'):
                cov |= coredrv.reach(P, [g])
    rep.count('owners of directories', owners)
    main = absint.Prog(common.extract('c++/nrg.cc', common.CFLAGS, ['c++/nrg.cc'], 'nrgmain'))
    names = [c['q'].split('::')[-1] for c in P.classes.values() if c['id'] in done]
    for f in list(P.fns.values()) + [g for g in main.fns.values() if g.file == 'c++/nrg.cc']:
        rep.count('functions searched')
        for n in f.N:
            t = ' '.join(f.N[c].get('t', '') for c in n.get('c', [])[:1] if c >= 0) + ' ' + n.get('t', '')
            if any(re.search(r'\b%s\b' % x, t) for x in names):
                if n['k'] in ('call', 'mcall') and n.get('n') == 'release' or n['k'] == 'new' and n.get('n') != 'unique_ptr':
                    rep.add(f'leak:{f.pk}', 'ownership cannot be duplicated', f'{f.file}:{n["l"]}', f'{f.q} takes the working directory away from its owner')
            if f.fid not in cov and (ext(P, n, WIPE) or ext(P, n, MAKE)):
                rep.add(f'other:{f.pk}', 'only the directory itself is removed', f'{f.file}:{n["l"]}', f'{f.q} calls {n["n"]} outside of the owner of the working directory')
            if ext(P, n, MODE):
                rep.add(f'mode:{f.pk}', 'the directory is unique and private', f'{f.file}:{n["l"]}', f'{f.q} changes modes ({n["n"]})')
    rep.need('owners of directories', 1)
    rep.need('lifetimes followed', 1)
    return 'Abstract interpretation of construction, use and destruction of every class that creates a directory, with failure of the creation and exceptions of library calls; compile-time witnesses for copying and moving.'


if __name__ == '__main__':
    common.run('C09', body)
