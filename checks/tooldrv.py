"""Run the abstract interpreter over the command-line tools with property-specific hooks."""
import sys
import traceback

import common
import absint
import effects

EV_DEFAULT = ()


class Hooks:
    """base class: collects findings; ignores events while the engine is still iterating"""

    def __init__(self, tool):
        self.tool = tool
        self.found = {}
        self.n = {}
        self.notes = []

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def site(self, name, key):
        s = self.n.setdefault(name, set())
        s.add(key)

    def add(self, key, rule, where, text):
        self.found.setdefault(f'{self.tool}:{key}', (rule, where, f'{self.tool}: {text}'))

    def signature(self, I, st):
        return 0


def where(I, fr, n):
    return I.where(fr, n)


def fnq(fr):
    return fr.fn.q if fr else '?'


def one(args):
    cls, tool, opts = args
    try:
        P = common.tool_prog(tool)
        h = cls(tool)
        I = absint.Interp(P, h, **opts.get('interp', {}))
        if opts.get('effects', True):
            I.effects = effects.Effects(P, **opts.get('eff', {}))
        h.I = I
        h.prepare(I) if hasattr(h, 'prepare') else None
        I.run_main()
        if hasattr(h, 'done'):
            h.done(I)
        n = {k: (len(v) if isinstance(v, set) else v) for k, v in h.n.items()}
        n['functions interpreted'] = len(I.inlined)
        n['abstract steps'] = I.steps
        return tool, h.found, n, h.notes, None
    except common.Broken as e:
        return tool, {}, {}, [], str(e)
    except Exception as e:
        return tool, {}, {}, [], f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]


def run_tools(rep, cls, tools=None, **opts):
    res = common.parallel(one, [(cls, t, opts) for t in (tools or common.TOOLS)])
    for tool, found, n, notes, err in res:
        if err:
            rep.broken.append(f'{tool}: {err}')
            continue
        for k, (rule, where, text) in found.items():
            rep.add(k, rule, where, text)
        for k, v in n.items():
            rep.count(k, v)
        rep.count('tools analysed')
        rep.details[tool] = {'counts': n, 'notes': notes[:60]}
    rep.need('tools analysed', len(tools or common.TOOLS))
    return res
