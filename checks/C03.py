"""C03: saved and loaded records have the same fields in the same order."""
import re

import common
import coredrv
import records
from C01 import roots
from terms import S


def arch(t):
    return 'archive' in t


def tparams(f):
    return re.findall(r'(?:double|std::complex<double>)', f.q + ' ' + ' '.join(p['t'] for p in f.params) + ' ' + f.d.get('ret', ''))[:1]


def trace(P, f, rep):
    T = records.Tracer(P, arch)
    r = T.run(f)
    for g, n in T.problems:
        raise common.Broken(f'{g.file}:{n.get("l")}: call of {n.get("n")} with the archive cannot be followed')
    for g, n, text in T.bad:
        rep.add(f'dims:{g.pk}', 'matrices are stored and read element by element in the same order', f'{g.file}:{n.get("l")}', f'{g.q}: {text}')
    rep.count('items in records', len(list(records.items(r))))
    return r, T


def covered(targets, field):
    return any(re.match(r'(?:\w+\()?' + re.escape(field) + r'(?:\W|$)', t) for t in targets)


def body(rep):
    P = coredrv.core_prog()
    rep.rules = ['the sequence of values that a save function writes (types, nesting, repetition, order, data members) is the sequence that the corresponding load function reads',
                 'every data member of a class that saves itself is part of its record; a Boost serialize member covers every data member unconditionally']
    sv, ld = roots(P, 'binary_oarchive', 'save'), roots(P, 'binary_iarchive', 'load')
    seen = set()
    pairs = []
    for f in sv:
        g = [x for x in ld if x.d.get('clsid') == f.d.get('clsid')]
        pairs.append((f, g[0] if g else None))
    # element-wise savers and loaders
    meth = {}
    for f in P.fns.values():
        if f.kind == 'method' and any(arch(p['t']) for p in f.params) and f.n != 'serialize':
            meth.setdefault((f.d.get('clsid'), f.n), f)
    free = [f for f in P.fns.values() if f.kind == 'fn' and any('oarchive' in p['t'] for p in f.params)]
    freel = [f for f in P.fns.values() if f.kind == 'fn' and any('iarchive' in p['t'] for p in f.params) and f.n == 'load']
    for (c, nm), f in meth.items():
        if any('oarchive' in p['t'] for p in f.params):
            g = [h for (c2, n2), h in meth.items() if c2 == c and any('iarchive' in p['t'] for p in h.params)]
            if g:
                pairs.append((f, g[0]))
    for f in free:
        g = [x for x in freel if tparams(x) == tparams(f)]
        if g:
            pairs.append((f, g[0]))
    for f, g in pairs:
        if g is None:
            rep.add(f'noload:{f.pk}', 'what can be saved can be loaded', f'{f.file}:{f.line}', f'{f.q} has no load function for the same class')
            continue
        a, T = trace(P, f, rep)
        b, U = trace(P, g, rep)
        seen |= T.visited | U.visited
        rep.count('save/load pairs compared')
        d = records.diff(a, b)
        if d:
            rep.add(f'pair:{f.pk}', 'the loader consumes what the saver emits', f'{g.file}:{g.line}', f'{f.q} and {g.q} disagree: {d}')
        rep.details.setdefault('records', {})[f.q] = ', '.join(records.show(x) for x in a)[:900]
        cls = [c for c in P.classes.values() if c['id'] == f.d.get('clsid')]
        if f.kind == 'method' and cls and any('oarchive' in p['t'] for p in f.params):
            fields(rep, P, f, cls[0], [x[2] for x in records.items(a) if x[2]])
            fields(rep, P, g, cls[0], [x[2] for x in records.items(b) if x[2]] if all(x[2] for x in records.items(b)) else None)
    for f in P.fns.values():
        if f.n == 'serialize' and f.kind == 'method' and any(arch(p['t']) for p in f.params):
            r, T = trace(P, f, rep)
            rep.count('serialize members')
            cls = [c for c in P.classes.values() if c['id'] == f.d.get('clsid')]
            if any(x[0] == 'alt' for x in r):
                rep.add(f'ser:{f.pk}', 'a serialize member treats both directions alike', f'{f.file}:{f.line}', f'{f.q} moves members conditionally')
            if cls:
                fields(rep, P, f, cls[0], [x[2] for x in records.items(r) if x[2]])
            other = [h for h in P.fns.values() if h.n == 'serialize' and h.d.get('clsid') == f.d.get('clsid') and h.fid != f.fid]
            for h in other:
                d = records.diff(r, trace(P, h, rep)[0])
                if d:
                    rep.add(f'ser:{f.pk}', 'a serialize member treats both directions alike', f'{f.file}:{f.line}', f'{f.q} depends on the kind of the archive: {d}')
    rep.need('save/load pairs compared', 2)
    rep.need('items in records', 8)
    rep.need('serialize members', 1)
    return 'Structural comparison of the instantiated save and load functions: both are flattened, through all called project functions, into sequences of typed items with repetition counts and target members.'


def changes(P, cls, fd):
    """functions that are called somewhere and may change the data member after construction"""
    if not hasattr(P, 'called'):
        P.called = {n['pk'] for f in P.fns.values() for n in f.N if n.get('pk') and n['k'] in ('call', 'mcall', 'opcall', 'ctor')} | {n['fid'] for f in P.fns.values() for n in f.N if 'fid' in n and n['k'] != 'lambda'}
    out = []
    for f in P.fns.values():
        if not (f.pk in P.called or f.fid in P.called):
            continue
        if f.d.get('clsid') == cls['id'] and any(x.get('m') == fd['n'] and x.get('w') for x in f.d.get('inits', [])):
            out.append(f)
        for n in f.N:
            c = n.get('c', [])
            if n['k'] in ('bin', 'opcall') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or n['k'] == 'un' and '+' in n['op'] or n['k'] == 'un' and n['op'] in ('--', 'post--', '&'):
                t = c[:1]
            elif n['k'] in ('call', 'ctor', 'mcall', 'opcall'):
                off = 1 if n['k'] == 'mcall' or n['k'] == 'opcall' and n.get('cls') else 0
                t = [x for x, pt in zip(c[off:], n.get('pt', [])) if '&' in pt and not pt.startswith('const ')]
                if off and not n.get('cm'):
                    t.append(c[0])
            else:
                t = c if n['k'] == 'return' and f.d.get('ret', '').rstrip().endswith('&') and not f.d.get('ret', '').startswith('const') else []
            for x in t:
                m = f.N[x]
                while m['k'] in ('sub', 'opcall', 'cast') and m.get('c'):
                    m = f.N[m['c'][0]]
                if m['k'] == 'mem' and m['d'] == fd['id']:
                    out.append(f)
    return out


def fields(rep, P, f, cls, targets):
    if targets is None:
        return
    for fd in cls['fields']:
        rep.count('data members checked')
        if not covered(targets, fd['n']):
            w = changes(P, cls, fd)
            if not w:
                rep.count('data members that are never set')
                continue
            rep.add(f'field:{f.pk}:{fd["n"]}', 'every data member is part of the record', f'{f.file}:{f.line}', f'{f.q} leaves out the data member {fd["n"]}, which {w[0].q} changes')


if __name__ == '__main__':
    common.run('C03', body)
