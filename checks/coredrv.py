"""Run the abstract interpreter over single functions of the solver core, from an unknown state."""
import re
import sys
import traceback

import common
import absint
import effects
from absint import St, L, K, S, mk, fresh, Frame, OBJ, strip_t, strip_targs
from tooldrv import Hooks

CORE = 'c++/nrg-lib.cc'
_p = {}


def core_prog(extra=(), tag='core'):
    if tag not in _p:
        _p[tag] = absint.Prog(common.extract(CORE, common.CFLAGS + list(extra), ['c++'], tag))
    return _p[tag]


class CoreInterp(absint.Interp):
    def run_function(self, f):
        """interpret f with unknown arguments, an unknown object and unknown globals; ends are reported through on_exit"""
        st = St()
        for nm in ('std::cout', 'std::cerr', 'std::clog', 'std::cin'):
            st.put((('g', nm), '#open'), K(1))
            st.put((('g', nm), '#ok'), K(1))
            st.put((('g', nm), '#dir'), S('std'))
            st.put((('g', nm), '#name'), S(nm))
        self.this = (('root', 'this'),)
        self.hook('on_start', st)
        vs = []
        for p in f.params:
            t = p['t']
            if self.kind(t) in OBJ or '&' in t:
                loc = (('root', p['n']),)
                vs.append(L(loc))
            elif t.rstrip().endswith('*') or t.rstrip().endswith('*const'):
                vs.append(mk('addr', (('root', p['n']),)))
            else:
                vs.append(self.fresh_of(t, p['n']))
        this = self.this if f.kind in ('method', 'ctor', 'dtor') and not f.d.get('static') else None
        rets = self.inline(f, st, None, 0, {'c': [], 'l': f.line}, vs, this=this)
        fr = Frame(f, 0, 0)
        for s, v in rets:
            self.hook('on_exit', s, v, fr, {'l': f.d.get('end', f.line)}, 'return')
        for s, t in self.sink[0]:
            self.hook('on_exit', s, t, fr, {'l': f.d.get('end', f.line)}, 'throw')
        return rets


def run_function(cls, f, P, label=None, interp={}, eff={}, effects_on=True):
    h = cls(label or f.q)
    I = CoreInterp(P, h, **({'libthrow': 'all'} | interp))
    if effects_on:
        I.effects = effects.Effects(P, **eff)
    h.I = I
    if hasattr(h, 'prepare'):
        h.prepare(I)
    I.run_function(f)
    if hasattr(h, 'done'):
        h.done(I)
    h.count('functions interpreted', len(I.inlined))
    h.count('abstract steps', I.steps)
    return h


def merge(rep, h):
    for k, (rule, where, text) in h.found.items():
        rep.add(k, rule, where, text)
    for k, v in h.n.items():
        rep.count(k, len(v) if isinstance(v, set) else v)
    rep.details[h.tool] = {'counts': {k: (len(v) if isinstance(v, set) else v) for k, v in h.n.items()}, 'notes': h.notes[:40]}


def calls(P, f):
    for n in f.N:
        if n.get('fid') in P.fns and n['k'] in ('call', 'mcall', 'opcall', 'ctor', 'lambda'):
            yield P.fns[n['fid']]


def reach(P, roots):
    """project functions reachable from the given ones"""
    seen = {}
    todo = list(roots)
    while todo:
        f = todo.pop()
        if f.fid in seen:
            continue
        seen[f.fid] = f
        todo += list(calls(P, f))
    return seen
