"""T04: every documented option letter is accepted, takes an argument as documented, sets something, and what it sets is used later."""
import re

import common
import tooldrv
import absint
import effects
from terms import S, K, Term, isnum, fn, fresh
from absint import L

TOOLS = ['binavg', 'bw', 'diag', 'hilb', 'intavg', 'integ', 'matrix', 'mats', 'specmoments', 'tdavg']
SYN = re.compile(r'\[-(\w+(?:\s*\|\s*-?\w)*)(?:[ =]+<?(\w+)>?)?\]')
LINE = re.compile(r'^\s*-\s?(\w)(?:(\s*<\w+>)|\s*--|\s*:|\s{2,})')
STD = ('std::cout', 'std::cerr', 'std::clog', 'optarg', 'optind')


def documented(P):
    """letters in the usage texts -> (argument shown: True/False/None, place)"""
    doc = {}

    def put(c, arg, where):
        old = doc.get(c)
        if old is None or old[0] is None and arg is not None:
            doc[c] = (arg, where)

    def text(s, where):
        for l in s.split('\n'):
            if 'sage' in l or '[-' in l:
                for m in SYN.finditer(l):
                    ls = re.findall(r'\w', m.group(1))
                    arg = m.group(2)
                    for c in ls:
                        put(c, bool(arg) if len(ls) == 1 else False, where)
            m = LINE.match(l)
            if m:
                put(m.group(1), True if m.group(2) else None, where)
    for f in P.all:
        if f.file.startswith('tools/'):
            for n in f.N:
                if n['k'] == 'str' and isinstance(n.get('v'), str):
                    text(n['v'], f'{f.file}:{n.get("l")}')
    for g in P.glist:
        if g.get('file', '').startswith('tools/'):
            for n in g.get('nodes', []):
                if n['k'] == 'str' and isinstance(n.get('v'), str):
                    text(n['v'], f'{g["file"]}:{n.get("l")}')
    return doc


class H(tooldrv.Hooks):
    letter = None
    argused = False
    trunc = None

    def __init__(self, tool):
        super().__init__(tool)
        self.opts = None
        self.where = None
        self.assigns = {}
        self.events = set()
        self.snap = {}
        self.backs = 0
        self.delta = set()
        self.loaded = set()
        self.E = None
        self.bad = None
        self.ok0 = []
        self.fails = []
        self.text = False
        self.gframe = None
        self.namecache = {}

    # ---- the option loop sees: this letter any number of times, then the end
    def on_getopt(self, I, st, fr, n, opts, v):
        if opts.op == 's':
            self.opts = opts.a[0]
        self.where = I.where(fr, n)
        self.gframe = (fr.ctx, fr.fn.fid)
        st.delghost('inopt')
        self.snap[fr.ctx] = {b: dict(d) for b, d in st.env.items()}
        s2 = st.copy()
        s2.setghost(K(1), 'done')
        for l in self.effect():
            s2.setghost(K(1), 'live', l)
        if self.letter == '?':
            v = K(ord('?'))
        else:
            v = K(ord(self.letter))
        st.put((('g', 'optarg'),), fn('optarg', v, v))
        st.setghost(K(1), 'inopt')
        st.setghost(K(1), 'had')
        s3 = None
        if self.letter != '?':
            # any other option
            s3 = s2.copy()
            for b in [b for b in s3.env if b[0] == '$' and b[1] in ('live', 'done')]:
                s3.kill((b,))
            w = fresh('getopt', 0, 127, False, True)
            s3.put((('g', 'optarg'),), fn('optarg', w))
        return [(st, v), (s2, K(-1))] + ([(s3, w)] if s3 is not None else [])

    def signature(self, I, st):
        return (st.ghost('inopt') is not None, st.ghost('done') is not None)

    def takes(self):
        i = (self.opts or '').find(self.letter)
        return i >= 0 and self.opts[i + 1:i + 2] == ':'

    def effect(self):
        return [l for l in list(self.assigns) + list(self.delta) if self.lasting(l)]

    def lasting(self, l):
        b = l[0]
        if b[0] == 'g':
            return b[1] not in STD
        return b[0] in ('v', 'h', 'u') and any(b in s for s in self.snap.values())

    def on_assign(self, I, st, fr, n, loc, val):
        if st.ghost('inopt') is not None:
            self.assigns.setdefault(loc, set()).add(val)
            self.arg(val)
            if isinstance(val, Term) and val.op == 'fn' and val.a[0] == 'parse_i' and has_arg(val) and I.kind(n.get('t', '')) == 'flt':
                self.trunc = I.where(fr, n)
        elif st.ghost('done') is not None:
            for l in list(self.assigns):
                if l == loc and '#elem' not in loc:
                    st.delghost('live', l)

    def on_open(self, I, st, fr, n, loc, name, d, opened):
        if st.ghost('inopt') is not None:
            self.events.add(('open', I.where(fr, n)))
            self.arg(name)

    def on_parse(self, I, st, fr, n, kind, s, val):
        if st.ghost('inopt') is not None:
            self.arg(s)

    def arg(self, v):
        if has_arg(v):
            self.argused = True

    def on_push(self, I, st, fr, n, loc, args):
        if st.ghost('inopt') is not None:
            self.assigns.setdefault(loc + ('#size',), set()).add(K(1))

    def on_loop_back(self, I, st, fr, n):
        if st.ghost('inopt') is None:
            return
        self.backs += 1
        self.collect(I, st)

    def collect(self, I, st):
        for s in self.snap.values():
            for b, d in st.env.items():
                if b[0] not in 'gvhu' or b not in s and b[0] != 'g' or b[0] == 'g' and b[1] in STD:
                    continue
                o = s.get(b, {})
                for p, v in d.items():
                    if o.get(p) is not v and '#ep' not in p and not (isnum(v) and v.a[0] == ord(self.letter)):
                        self.delta.add((b,) + p)

    # ---- is what was set used afterwards?
    def on_load(self, st, loc, t=None):
        if st.ghost('done') is None or loc[0][0] == '$':
            return
        for l in self.effect():
            if (l == loc or l[:len(loc)] == loc or loc[:len(l)] == l) and (l not in self.assigns or st.ghost('live', l) is not None):
                self.loaded.add(l)

    def names(self):
        r = set()
        for l in self.effect():
            for x in l[1:]:
                if isinstance(x, str) and x[:1] != '#':
                    r.add(x)
            if l[0][0] == 'g':
                r.add(l[0][1])
        return r

    def mentions(self, I, f):
        """names of variables and fields read by f or what it calls"""
        r = self.namecache.get(f.fid)
        if r is None:
            r = set()
            seen, todo = set(), [f.fid]
            while todo:
                x = todo.pop()
                g = I.prog.fns.get(x)
                if x in seen or g is None:
                    continue
                seen.add(x)
                for n in g.N:
                    if n['k'] == 'mem':
                        r.add(n.get('m'))
                        r.add(n.get('q'))
                    elif n['k'] == 'ref':
                        r.add(n.get('q') or n.get('n'))
                    if n.get('fid') is not None:
                        todo.append(n['fid'])
            self.namecache[f.fid] = r
        return r

    def on_summary(self, I, st, fr, n, f, e):
        if st.ghost('done') is not None:
            m = self.mentions(I, f) & self.names()
            for l in self.effect():
                if any((x in m) for x in list(l[1:]) + [l[0][1]] if isinstance(x, str)):
                    self.loaded.add(l)

    # ---- ends of the run
    def on_exit(self, I, st, status, fr, n, kind):
        if I.quiet:
            return
        where = I.where(fr, n)
        if st.ghost('inopt') is not None:
            z = I.iv(st, status) if isinstance(status, Term) else None
            (self.ok0 if z is None or z.lo <= 0 <= z.hi else self.fails).append(where)
        if self.letter == '?' and st.ghost('had') is not None:
            z = I.iv(st, status) if isinstance(status, Term) else None
            if z is None or z.lo <= 0 <= z.hi:
                self.bad = where


def loads_hook(h):
    return h


def one(args):
    tool, letter = args
    try:
        P = common.tool_prog(tool)
        h = H(tool)
        h.letter = letter
        I = absint.Interp(P, h)
        I.effects = effects.Effects(P)
        I.run_main()
        r = dict(opts=h.opts, where=h.where, assigns={l: {v.id for v in vs} for l, vs in h.assigns.items() if h.lasting(l)},
                 uses_arg=h.argused, trunc=h.trunc, names=sorted(h.names()),
                 delta={l for l in h.delta if h.lasting(l)}, events=sorted(h.events), loaded=h.loaded, backs=h.backs, ok0=h.ok0, fails=h.fails, bad=h.bad, steps=I.steps,
                 sig={(l, sig(v)) for l, vs in h.assigns.items() if h.lasting(l) for v in vs})
        un = [f for f in P.fns.values() if f.fid not in I.inlined and f.fid not in I.summarised]
        r['elsewhere'] = [f.q for f in un if h.names() & own(f)]
        return tool, letter, r, None
    except common.Broken as e:
        return tool, letter, None, str(e)
    except Exception as e:
        import traceback
        return tool, letter, None, f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1200:]


def own(f):
    r = set()
    for n in f.N:
        if n['k'] == 'mem':
            r.add(n.get('m'))
        elif n['k'] == 'ref':
            r.add(n.get('q') or n.get('n'))
    return r


def has_arg(v, d=0):
    if not isinstance(v, Term):
        return False
    if v.op == 'fn' and v.a[0] == 'optarg':
        return True
    return d < 10 and any(has_arg(x, d + 1) for x in v.a if isinstance(x, Term))


def sig(v):
    """text of a value with the option letter taken out"""
    return re.sub(r"optarg\(\d+,\d+\)", 'optarg()', re.sub(r'#\d+', '', str(v)))


def body(rep):
    rep.rules = ['every letter in the usage text is accepted by the option parser and consumes an argument exactly when the synopsis shows one',
                 'handling a documented letter sets something (or ends with status 0: help), and an argument it takes is part of what it sets',
                 'no documented letter has exactly the effect of another one, or the effect of another one in addition to its own',
                 'what a documented letter sets is read after the options were parsed and before it is overwritten',
                 'an unknown letter never ends in status 0']
    docs, jobs = {}, []
    for t in TOOLS:
        P = common.tool_prog(t)
        docs[t] = documented(P)
        if not docs[t]:
            raise common.Broken(f'{t}: no option is documented in the usage text')
        jobs += [(t, c) for c in sorted(docs[t])] + [(t, '?')]
    res = {}
    for tool, c, r, err in common.parallel(one, jobs):
        if err:
            raise common.Broken(f'{tool} -{c}: {err}')
        res[tool, c] = r
    for t in TOOLS:
        det = {}
        for c, (arg, where) in sorted(docs[t].items()):
            r = res[t, c]
            rep.count('documented options')
            rep.count('abstract steps', r['steps'])
            det[c] = {'sets': r['names'], 'documented at': where}
            if r['opts'] is None:
                raise common.Broken(f'{t}: the option string is not a constant')
            key = f'{t}:-{c}'
            if c not in r['opts'].replace(':', ''):
                rep.add(key + ':unknown', 'documented options are accepted', r['where'], f'{t}: option -{c} is documented ({where}) but not in the option string "{r["opts"]}"')
                continue
            takes = r['opts'][r['opts'].index(c) + 1:r['opts'].index(c) + 2] == ':'
            if arg is not None and takes != arg:
                rep.add(key + ':arg', 'options consume an argument as documented', r['where'], f'{t}: option -{c} is documented with{"" if arg else "out"} an argument ({where}) but parsed with{"" if takes else "out"} one')
            if not r['backs'] and not r['ok0']:
                rep.add(key + ':fails', 'documented options are accepted', r['where'], f'{t}: option -{c} is documented but always ends in failure ({", ".join(sorted(set(r["fails"]))[:3])})')
                continue
            if not r['backs']:
                rep.count('help options')
                continue
            if not r['assigns'] and not r['delta'] and not r['events']:
                rep.add(key + ':none', 'documented options set something', r['where'], f'{t}: option -{c} is accepted but sets nothing')
                continue
            if not takes and r['uses_arg']:
                rep.add(key + ':noarg', 'an option uses an argument only if it takes one', r['where'], f'{t}: option -{c} takes no argument, but one is used when it is handled')
            if takes and not r['uses_arg']:
                rep.add(key + ':optarg', 'the argument of an option is used', r['where'], f'{t}: the argument of option -{c} is ignored')
            if r['trunc']:
                rep.add(key + ':int', 'real-valued options are not read as integers', r['trunc'], f'{t}: the argument of option -{c} is stored in a floating-point setting but read as an integer')
            rep.count('options that set something')
            used = bool(r['loaded'] or r['elsewhere'])
            if not used:
                rep.add(key + ':unused', 'what an option sets is read later', r['where'], f'{t}: option -{c} sets {", ".join(r["names"]) or "something"}, which is not read after the options were parsed (or was overwritten before)')
        for c in docs[t]:
            # what every letter assigns (the letter itself, say) is no effect of a particular one
            common_ = {l for l, _ in res[t, '?']['sig']}
            res[t, c]['sig'] = {(l, v) for l, v in res[t, c]['sig'] if l not in common_}
        cs = [c for c in sorted(docs[t]) if res[t, c]['backs'] and res[t, c]['sig']]
        for a in cs:
            for b in cs:
                if a != b and res[t, b]['sig'] <= res[t, a]['sig']:
                    rep.add(f'{t}:-{a}=-{b}', 'different options have different effects', res[t, a]['where'], f'{t}: option -{a} also has the whole effect of option -{b}')
        if res[t, '?']['bad']:
            rep.add(f'{t}:-?', 'unknown options end in failure', res[t, '?']['bad'], f'{t}: the run can end with status 0 although an unknown option was given')
        rep.count('tools analysed')
        rep.details[t] = det
    rep.need('documented options', 45)
    rep.need('tools analysed', len(TOOLS))
    return ('One abstract run of the tool per option letter of its usage text, with the option parser returning this letter any number of times; the assignments made while the letter is handled '
            'are its effect, and a load of an assigned location after parsing is its use.')


if __name__ == '__main__':
    common.run('T04', body)
