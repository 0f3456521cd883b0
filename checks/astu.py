"""Small helpers over the extracted syntax trees (lists of nodes with child indices)."""

LOOPS = ('for', 'while', 'do', 'rangefor')


def kids(n):
    r = [x for x in n.get('c', []) if isinstance(x, int) and x >= 0]
    for k in ('init', 'cvar', 'ce'):
        x = n.get(k)
        if isinstance(x, int) and x >= 0:
            r.append(x)
    for v in n.get('vars', []):
        if isinstance(v.get('init'), int) and v['init'] >= 0:
            r.append(v['init'])
    for c in n.get('caps', []):
        if isinstance(c.get('init'), int) and c['init'] >= 0:
            r.append(c['init'])
    for c in n.get('clauses', []):
        r += [x for x in c['c'] if isinstance(x, int) and x >= 0]
    return r


def walk(N, i, lambdas=True):
    """indices below (and including) i, in source order"""
    if i is None or i < 0:
        return
    yield i
    if N[i]['k'] == 'lambda' and not lambdas:
        return
    for x in kids(N[i]):
        yield from walk(N, x, lambdas)


def order(n):
    """children in evaluation order (the declared order, loop parts included)"""
    return kids(n)


def body_of(n):
    c = n['c']
    return c[0] if n['k'] == 'do' else c[-1]


def cond_of(n):
    return {'for': lambda: n['c'][1], 'while': lambda: n['c'][0], 'do': lambda: n['c'][1]}.get(n['k'], lambda: None)()


def leaves(N, i, out=None, loop=True):
    """break/return nodes that leave the loop whose body is i"""
    out = [] if out is None else out
    n = N[i]
    if n['k'] == 'return' or n['k'] == 'break' and loop or n['k'] == 'goto':
        out.append(n)
    if n['k'] == 'lambda':
        return out
    inner = n['k'] in LOOPS or n['k'] == 'switch'
    for x in kids(n):
        leaves(N, x, out, loop and not inner)
    return out
