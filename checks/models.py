"""Models of the library functions the code base uses (what they read, write and return)."""
import math
from terms import *
import absint
from absint import L, LC, K, model, MODELS, strip_t, OBJ, NOVAL, FN_RANGE


def val(I, st, fr, n, v):
    return I.load(st, v, fr, n) if isinstance(v, L) else v


def lo(I, st, v, fr=None, n=None):
    return tuple(v) if isinstance(v, L) else I.deref(st, v, fr, n)


def cat(*parts):
    out = []
    for p in parts:
        ps = p.a if p.op == 'cat' else (p,)
        for x in ps:
            if x.op == 's' and x.a[0] == '':
                continue
            if out and out[-1].op == 's' and x.op == 's':
                out[-1] = S(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
    if not out:
        return S('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def chars(v):
    """a single character appended to a string"""
    if isnum(v) and isinstance(v.a[0], int) and 0 < v.a[0] < 256:
        return S(chr(v.a[0]))
    return fn('chr', v)


def slen(s):
    return K(len(s.a[0])) if s.op == 's' else fn('len', s)


def tostr(v):
    if isnum(v):
        return S(str(v.a[0])) if isinstance(v.a[0], int) else fn('str', v)
    return fn('str', v)


# ------------------------------------------------------------------ streams
def s_reset(st, loc, dir):
    st.kill(loc)
    st.put(loc + ('#open',), K(0))
    st.put(loc + ('#ok',), K(1))
    st.put(loc + ('#io',), K(0))
    st.put(loc + ('#prec',), K(6))
    st.put(loc + ('#dir',), S(dir))


def s_open(I, st, fr, n, loc, name, dir):
    o = fresh('opened', 0, 1, False, True)
    st.put(loc + ('#open',), o)
    st.put(loc + ('#ok',), o)
    st.put(loc + ('#io',), K(0))
    st.put(loc + ('#name',), name)
    d = st.raw(loc + ('#dir',))
    if d is None:
        st.put(loc + ('#dir',), S(dir))
    I.hook('on_open', st, fr, n, loc, name, (d.a[0] if d is not None and d.op == 's' else dir), o)
    if st.raw(loc + ('#exc',)) is not None:
        throwing(I, st, loc, o)


def okof(st, loc):
    return st.get(loc + ('#ok',))


def s_io(I, st, loc, label='io'):
    ok = okof(st, loc)
    if ok.op == 'fn' and ok.a[0] == 'io':
        base = ok.a[2]
    else:
        base = ok
    new = fn('io', fresh(label, 0, 1, False, True), base)
    # a stream that has failed stays failed
    if I.iv(st, ok).const() == 0:
        new = K(0)
    st.put(loc + ('#ok',), new)
    st.put(loc + ('#io',), K(1))
    if st.raw(loc + ('#exc',)) is not None:
        new = throwing(I, st, loc, new)
    return new


def throwing(I, st, loc, ok):
    """the stream throws instead of failing silently (exceptions(failbit))"""
    c = I.iv(st, ok).const()
    if c != 1:
        s = st.copy()
        s.put(loc + ('#ok',), K(0))
        I.sink[-1].append((s, 'std::ios_base::failure'))
        if c != 0:
            st.put(loc + ('#ok',), K(1))
            return K(1)
    return ok


@model('ctor:stream')
def ctor_stream(I, st, fr, i, n, vs, loc):
    t = strip_t(n['t'])
    if 'stringstream' in t:
        d = 'str'
    elif 'ifstream' in t:
        d = 'in'
    elif 'ofstream' in t:
        d = 'out'
    else:
        d = 'any'
    if vs and isinstance(vs[0], L) and (n.get('copy') or n.get('move')):
        I.copy_obj(st, tuple(vs[0]), loc)
        return [st]
    s_reset(st, loc, d)
    if d == 'str':
        st.put(loc + ('#open',), K(1))
        a = S('')
        if vs and n.get('pt') and 'basic_string' in n['pt'][0]:
            a = val(I, st, fr, n, vs[0])
        elif vs and 'pt' not in n:
            v = val(I, st, fr, n, vs[0])
            if v.op in ('s', 'cat', 'fn', 'init'):
                a = v
        st.put(loc + ('#buf',), a)
        return [st]
    if vs:
        s_open(I, st, fr, n, loc, val(I, st, fr, n, vs[0]), d)
    return [st]


@model('std::basic_ifstream::open', 'std::basic_ofstream::open', 'std::basic_fstream::open')
def m_open(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    prec = st.raw(loc + ('#prec',))
    if prec is None:
        s_reset(st, loc, 'in' if 'ifstream' in n['cls'] else 'out')
    s_open(I, st, fr, n, loc, val(I, st, fr, n, a[1]), 'in' if 'ifstream' in n['cls'] else 'out')
    return NOVAL


@model('std::basic_ifstream::close', 'std::basic_ofstream::close', 'std::basic_fstream::close')
def m_close(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    I.hook('on_close', st, fr, n, loc)
    s_io(I, st, loc, 'close')
    st.put(loc + ('#open',), K(0))
    return NOVAL


@model('std::basic_ifstream::is_open', 'std::basic_ofstream::is_open', 'std::basic_fstream::is_open')
def m_isopen(I, st, fr, i, n, a):
    return st.get(lo(I, st, a[0], fr, n) + ('#open',))


@model('std::basic_ios::operator!', 'std::basic_ios::fail')
def m_fail(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    I.hook('on_status', st, fr, n, loc)
    return I.neg(okof(st, loc))


@model('std::basic_ios::operator bool')
def m_okb(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    I.hook('on_status', st, fr, n, loc)
    return okof(st, loc)


@model('std::basic_ios::good')
def m_good(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    I.hook('on_status', st, fr, n, loc)
    io = st.raw(loc + ('#io',))
    if io is not None and isnum(io) and io.a[0] == 0:
        return okof(st, loc)
    return fn('good', okof(st, loc))


@model('std::basic_ios::bad')
def m_bad(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    io = st.raw(loc + ('#io',))
    if io is not None and isnum(io) and io.a[0] == 0:
        return K(0)
    return fn('bad', okof(st, loc))


@model('std::basic_ios::eof')
def m_eof(I, st, fr, i, n, a):
    return fresh('eof', 0, 1, False, True)


@model('std::basic_ios::rdstate')
def m_rdstate(I, st, fr, i, n, a):
    return fresh('rdstate', 0, 7, False, True)


@model('std::basic_ios::clear')
def m_clear(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    st.put(loc + ('#ok',), K(1))
    return NOVAL


@model('std::basic_ios::setstate')
def m_setstate(I, st, fr, i, n, a):
    s_io(I, st, lo(I, st, a[0], fr, n))
    return NOVAL


@model('std::basic_ios::exceptions')
def m_exc(I, st, fr, i, n, a):
    if len(a) > 1:
        loc = lo(I, st, a[0], fr, n)
        m = val(I, st, fr, n, a[1])
        if isnum(m) and int(m.a[0]) & 4:
            st.put(loc + ('#exc',), K(1))
            throwing(I, st, loc, okof(st, loc))
        elif st.raw(loc + ('#exc',)) is not None:
            st.kill(loc + ('#exc',))
        return NOVAL
    return fresh('exceptions')


@model('std::basic_istream::seekg', 'std::basic_ostream::flush', 'std::basic_istream::ignore', 'std::basic_istream::unget',
       'std::basic_istream::get', 'std::basic_ostream::put', 'std::basic_ostream::seekp')
def m_seek(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    s_io(I, st, loc)
    pos = fresh('pos')
    if n['n'] in ('seekg', 'seekp'):
        off = val(I, st, fr, n, a[1])
        way = val(I, st, fr, n, a[2]) if len(a) > 2 else K(0)
        if isnum(off) and off.a[0] == 0 and isnum(way) and way.a[0] in (0, 2):
            pos = K(0) if way.a[0] == 0 else S('end')
    st.put(loc + ('#pos',), pos)
    return a[0] if isinstance(a[0], L) else L(loc)


@model('std::basic_istream::tellg', 'std::basic_ostream::tellp')
def m_tell(I, st, fr, i, n, a):
    # a failed tell returns -1 and leaves the stream failed, so that no later read stores anything
    loc = lo(I, st, a[0], fr, n)
    p = st.raw(loc + ('#pos',))
    if p is not None and isnum(p):
        return p
    return fresh('tell', 0, 2**62, False, True)


@model('std::filesystem::file_size')
def m_fsize(I, st, fr, i, n, a):
    return fresh('fsize', 0, 2**62, False, True)


@model('std::fpos::operator-', 'std::fpos::operator+')
def m_fpos(I, st, fr, i, n, a):
    x, y = val(I, st, fr, n, a[0]), val(I, st, fr, n, a[1])
    return sub(x, y) if n['n'].endswith('-') else add(x, y)


@model('std::fpos::operator long', 'std::fpos::operator std::streamoff')
def m_fpos2(I, st, fr, i, n, a):
    return val(I, st, fr, n, a[0])


@model('std::basic_istream::peek')
def m_peek(I, st, fr, i, n, a):
    return fresh('peek', -1, 255, False, True)


@model('std::basic_istream::read')
def m_read(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    buf, ln = val(I, st, fr, n, a[1]), val(I, st, fr, n, a[2])
    ok = s_io(I, st, loc, 'read')
    I.hook('on_read', st, fr, n, loc, buf, ln, ok)
    if buf.op == 'addr':
        b = buf.a[0]
        if b and b[-1] == '#elem':
            st.put(b, fresh('data', None, None, True, False))
            st.put(b[:-1] + ('#sorted',), K(0))
        else:
            I.havoc(st, b)
    return L(loc)


@model('std::basic_ostream::write')
def m_write(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    I.hook('on_rawwrite', st, fr, n, loc, val(I, st, fr, n, a[1]), val(I, st, fr, n, a[2]))
    s_io(I, st, loc, 'write')
    return L(loc)


def parsefile(I, st, fr, n, loc, t):
    b = st.raw(loc + ('#buf',))
    t = strip_t(t)
    if t in ('double', 'float', 'long double'):
        if b is not None:
            v = fn('parse_d', b)
            I.hook('on_parse', st, fr, n, 'parse_d', b, v)
            return v
        return fresh('filedata', None, None, True, False)
    if t in ('int', 'long', 'unsigned long', 'unsigned int', 'short', 'size_t', 'bool', 'long long'):
        if b is not None:
            v = fn('parse_i', b)
            I.hook('on_parse', st, fr, n, 'parse_i', b, v)
            return v
        return fresh('filedata', 0 if 'unsigned' in t else None, None, False, True)
    return fresh('filedata')


@model('std::basic_istream::operator>>', 'std::operator>>')
def m_in(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    v = a[1]
    if not isinstance(v, L) and v.op == 'func':
        return L(loc)
    old = okof(st, loc)
    ok = s_io(I, st, loc, 'in')
    if isinstance(v, L):
        t = n['pt'][-1] if n.get('pt') else ''
        new = parsefile(I, st, fr, n, loc, t)
        tgt = tuple(v)
        if I.kind(t) in OBJ:
            I.havoc(st, tgt)
        else:
            I.store(st, tgt, new)
        I.hook('on_input', st, fr, n, loc, tgt, new, ok)
    st.put(loc + ('#used',), K(1))
    return L(loc)


@model('std::getline', 'std::basic_istream::getline')
def m_getline(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    ok = s_io(I, st, loc, 'getline')
    new = fresh('line')
    if isinstance(a[1], L):
        I.store(st, tuple(a[1]), new)
    I.hook('on_input', st, fr, n, loc, tuple(a[1]) if isinstance(a[1], L) else None, new, ok)
    return L(loc)


MANIP = ('endl', 'flush', 'scientific', 'fixed', 'boolalpha', 'noboolalpha', 'left', 'right', 'setfill', 'ws', 'ends', 'defaultfloat', 'showpoint', 'noshowpoint', 'hex', 'dec',
         'internal', 'showpos', 'noshowpos', 'hexfloat', 'skipws')


@model('std::basic_ostream::operator<<', 'std::operator<<')
def m_out(I, st, fr, i, n, a):
    if len(a) < 2:
        return L(lo(I, st, a[0], fr, n))
    if not isinstance(a[0], L):
        v0 = a[0]
        if isnum(v0) or (v0.op in ('sym', 'fn', 'lin') and not n.get('cls')):
            # bitmask operators and similar
            return I.result(i, n, st, fr)
    loc = lo(I, st, a[0], fr, n)
    v = a[1]
    t = n['pt'][-1] if n.get('pt') else ''
    if isinstance(v, L):
        if I.kind(t) not in OBJ:
            v = I.load(st, v, fr, n)
    if not isinstance(v, L):
        if v.op == 'fn' and v.a[0] == 'setprec':
            st.put(loc + ('#prec',), v.a[1])
            return L(loc)
        if v.op == 'fn' and v.a[0] in ('setw', 'setfill'):
            return L(loc)
        if v.op == 'func':
            nm = str(v.a[1]).split('::')[-1]
            nm = nm.split('<')[0]
            if nm == 'defaultfloat' or nm == 'hexfloat' or nm == 'fixed' or nm == 'scientific':
                st.put(loc + ('#fmt',), S(nm))
            if nm in ('endl', 'flush'):
                s_io(I, st, loc, 'out')
            if nm == 'endl':
                I.hook('on_write', st, fr, n, loc, S('\n'), 'char')
            return L(loc)
    I.hook('on_write', st, fr, n, loc, v, t)
    b = st.raw(loc + ('#buf',))
    if b is not None and not isinstance(v, L):
        kt = strip_t(t)
        if kt == 'char':
            p = chars(v)
        elif I.kind(t) == 'flt' and not isnum(v):
            pr = st.get(loc + ('#prec',))
            p = fn('str', v) if I.iv(st, pr).lo >= 16 and st.raw(loc + ('#fmt',)) is not S('fixed') else fn('lowprec', v)
        elif I.kind(t) in ('int', 'flt'):
            p = tostr(v)
        else:
            p = v
        if len(b.a) < 30 or b.op != 'cat':
            st.put(loc + ('#buf',), cat(b, p))
    else:
        s_io(I, st, loc, 'out')
    return L(loc)


@model('std::basic_ostringstream::str', 'std::basic_stringstream::str', 'std::basic_istringstream::str')
def m_str(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    if len(a) > 1:
        st.put(loc + ('#buf',), val(I, st, fr, n, a[1]))
        return NOVAL
    return st.get(loc + ('#buf',))


@model('std::setprecision')
def m_setprec(I, st, fr, i, n, a):
    return fn('setprec', val(I, st, fr, n, a[0]))


@model('std::setw')
def m_setw(I, st, fr, i, n, a):
    return fn('setw', val(I, st, fr, n, a[0]))


@model('std::setfill')
def m_setfill(I, st, fr, i, n, a):
    return fn('setfill', val(I, st, fr, n, a[0]))


@model('std::ios_base::precision')
def m_precision(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    old = st.get(loc + ('#prec',))
    if len(a) > 1:
        st.put(loc + ('#prec',), val(I, st, fr, n, a[1]))
    return old


@model('std::ios_base::setf', 'std::ios_base::unsetf', 'std::ios_base::flags', 'std::basic_ios::copyfmt', 'std::ios_base::width', 'std::basic_ios::fill', 'std::ios_base::imbue')
def m_setf(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    arg = str(val(I, st, fr, n, a[1])) + ' ' + nodetext(fr, n) if len(a) > 1 else ''
    if n['n'] == 'copyfmt' and isinstance(a[1], L):
        for k in ('#prec', '#fmt'):
            v = st.raw(tuple(a[1]) + (k,))
            if v is not None:
                st.put(loc + (k,), v)
            else:
                st.kill(loc + (k,))
    elif n['n'] in ('setf', 'flags') and 'fixed' in arg:
        st.put(loc + ('#fmt',), S('fixed'))
    elif n['n'] in ('setf', 'flags', 'unsetf'):
        st.put(loc + ('#fmt',), S('set'))
    return fresh('flags')


def nodetext(fr, n):
    return ' '.join(str(fr.fn.N[c].get('q') or fr.fn.N[c].get('n') or fr.fn.N[c].get('m') or '') for c in n.get('c', []) if c is not None and c >= 0)


# ------------------------------------------------------------------ strings
def sval(I, st, fr, n, v):
    x = val(I, st, fr, n, v)
    return x


@model('std::basic_string::c_str', 'std::basic_string::data', 'std::basic_string_view::data', 'std::basic_string::operator basic_string_view',
       'std::basic_string::operator std::basic_string_view', 'std::operator""s', 'std::literals::string_literals::operator""s', 'std::string_literals::operator""s')
def m_cstr(I, st, fr, i, n, a):
    return sval(I, st, fr, n, a[0])


@model('std::basic_string::size', 'std::basic_string::length', 'std::basic_string_view::size', 'std::basic_string_view::length', 'strlen', 'std::strlen')
def m_slen(I, st, fr, i, n, a):
    return slen(sval(I, st, fr, n, a[0]))


@model('std::basic_string::empty', 'std::basic_string_view::empty')
def m_sempty(I, st, fr, i, n, a):
    s = sval(I, st, fr, n, a[0])
    return I.cmpterm('==', s, S(''), 's') if s.op != 's' else K(s.a[0] == '')


@model('std::basic_string::clear')
def m_sclear(I, st, fr, i, n, a):
    if isinstance(a[0], L):
        I.store(st, tuple(a[0]), S(''))
    return NOVAL


@model('std::basic_string::substr', 'std::basic_string_view::substr')
def m_substr(I, st, fr, i, n, a):
    xs = [sval(I, st, fr, n, x) for x in a]
    s = xs[0]
    if s.op == 's' and all(isnum(x) for x in xs[1:]):
        b = int(xs[1].a[0])
        e = len(s.a[0]) if len(xs) < 3 or xs[2].a[0] > 1e9 or xs[2].a[0] < 0 else b + int(xs[2].a[0])
        return S(s.a[0][b:e])
    return fn('substr', *xs)


@model('std::basic_string::find', 'std::basic_string::rfind', 'std::basic_string::find_first_of', 'std::basic_string::find_first_not_of',
       'std::basic_string::find_last_of', 'std::basic_string::find_last_not_of', 'std::basic_string_view::find', 'std::basic_string_view::rfind')
def m_sfind(I, st, fr, i, n, a):
    xs = [sval(I, st, fr, n, x) for x in a]
    return fn(n['n'], *xs)


@model('std::basic_string::starts_with', 'std::basic_string::ends_with', 'std::basic_string_view::starts_with', 'std::basic_string::contains')
def m_sstart(I, st, fr, i, n, a):
    xs = [sval(I, st, fr, n, x) for x in a]
    if all(x.op == 's' for x in xs):
        return K(getattr(xs[0].a[0], {'starts_with': 'startswith', 'ends_with': 'endswith'}.get(n['n'], '__contains__'))(xs[1].a[0]))
    return fn('b', S(n['n']), *xs)


@model('std::basic_string::compare', 'strcmp', 'std::strcmp', 'std::basic_string_view::compare', 'strcasecmp')
def m_compare(I, st, fr, i, n, a):
    x, y = sval(I, st, fr, n, a[0]), sval(I, st, fr, n, a[1])
    if n['n'] == 'strcasecmp' and not (x.op == 's' and y.op == 's'):
        return fn('strcasecmp', x, y)
    if len(a) > 2:
        return fn('compare', *[sval(I, st, fr, n, x) for x in a])
    return I.neg(I.cmpterm('==', x, y, 's')) if not (x.op == 's' and y.op == 's') else K(0 if x.a[0] == y.a[0] else 1)


def strish(x):
    return x.op in ('s', 'cat', 'argvk', 'init', 'fn', 'sym', 'phi')


@model('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=')
def m_eq(I, st, fr, i, n, a):
    op = n.get('op') or n['n'][8:]
    pts = ' '.join(n.get('pt', []))
    if len(a) < 2:
        return I.result(i, n, st, fr)
    if isinstance(a[0], L) and I.kind(n['pt'][0]) in OBJ or isinstance(a[1], L) and I.kind(n['pt'][1]) in OBJ:
        return fresh('objcmp', 0, 1, False, True)
    x, y = sval(I, st, fr, n, a[0]), sval(I, st, fr, n, a[1])
    if 'it' in (x.op, y.op):
        return I.itcmp(st, op, x, y)
    if 'basic_string' in pts:
        if op in ('==', '!='):
            if x.op == 's' and y.op == 's':
                return K((x.a[0] == y.a[0]) == (op == '=='))
            return I.cmpterm(op, x, y, 's')
        return fresh('strcmp', 0, 1, False, True)
    if 'unique_ptr' in pts or 'shared_ptr' in pts or 'nullptr' in pts:
        return I.cmpterm(op, x, y, 'i')
    if 'optional' in pts:
        return fresh('optcmp', 0, 1, False, True)
    if 'complex' in pts:
        return I.cmpterm(op, x, y, 'f')
    return fresh('cmp', 0, 1, False, True)


@model('std::operator+')
def m_plus(I, st, fr, i, n, a):
    pts = ' '.join(n.get('pt', []))
    if 'basic_string' in pts:
        xs = []
        for v, t in zip(a, n['pt']):
            x = sval(I, st, fr, n, v)
            xs.append(chars(x) if strip_t(t) == 'char' else x)
        return cat(*xs)
    if 'iterator' in pts:
        return I.ptradd(sval(I, st, fr, n, a[1]), sval(I, st, fr, n, a[0]))
    xs = [sval(I, st, fr, n, v) for v in a]
    return fn('c+', *xs)


@model('std::operator-', 'std::operator*', 'std::operator/')
def m_carith(I, st, fr, i, n, a):
    if I.kind(n['t']) in OBJ:
        return I.result(i, n, st, fr)
    xs = [sval(I, st, fr, n, v) for v in a]
    return fn('c' + n['n'][8:], *xs)


@model('std::operator|', 'std::operator&', 'std::operator^')
def m_bits(I, st, fr, i, n, a):
    xs = [sval(I, st, fr, n, v) for v in a]
    if all(isnum(x) and isinstance(x.a[0], int) for x in xs) and len(xs) == 2:
        return K(xs[0].a[0] | xs[1].a[0] if n['n'].endswith('|') else xs[0].a[0] & xs[1].a[0])
    return fn('bit' + n['n'][8:], *xs)


@model('std::basic_string::operator=', 'std::basic_string::assign')
def m_sassign(I, st, fr, i, n, a):
    x = sval(I, st, fr, n, a[1])
    if len(a) == 2:
        t = strip_t(n['pt'][0]) if n.get('pt') else ''
        if t == 'char':
            x = chars(x)
    else:
        x = fn('assign', *[sval(I, st, fr, n, v) for v in a[1:]])
    if isinstance(a[0], L):
        I.store(st, tuple(a[0]), x)
        I.hook('on_assign', st, fr, n, tuple(a[0]), x)
    return a[0]


@model('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def m_sappend(I, st, fr, i, n, a):
    x, y = sval(I, st, fr, n, a[0]), sval(I, st, fr, n, a[1])
    if n.get('pt') and strip_t(n['pt'][0]) == 'char':
        y = chars(y)
    r = cat(x, y)
    if len(r.a) > 24:
        r = fn('append', S('long'), fresh('str'))
    if isinstance(a[0], L):
        I.store(st, tuple(a[0]), r)
    return a[0]


@model('std::basic_string::operator[]', 'std::basic_string::at', 'std::basic_string::front', 'std::basic_string::back', 'std::basic_string_view::operator[]')
def m_sidx(I, st, fr, i, n, a):
    s = sval(I, st, fr, n, a[0])
    ix = sval(I, st, fr, n, a[1]) if len(a) > 1 else S(n['n'])
    if s.op == 's' and isnum(ix) and 0 <= ix.a[0] < len(s.a[0]):
        return K(ord(s.a[0][ix.a[0]]))
    return fn('ch', s, ix)


@model('std::basic_string::erase', 'std::basic_string::insert', 'std::basic_string::replace', 'std::basic_string::resize', 'std::basic_string::reserve', 'std::basic_string::pop_back')
def m_smut(I, st, fr, i, n, a):
    if n['n'] != 'reserve' and isinstance(a[0], L):
        I.store(st, tuple(a[0]), fn('mut', S(n['n']), *[x for x in (sval(I, st, fr, n, v) for v in a)]))
    return a[0]


@model('std::basic_string::begin', 'std::basic_string::end', 'std::basic_string::cbegin', 'std::basic_string::cend', 'std::basic_string_view::begin', 'std::basic_string_view::end')
def m_siter(I, st, fr, i, n, a):
    return fresh('strit')


@model('std::to_string')
def m_to_string(I, st, fr, i, n, a):
    if n.get('pt') and strip_t(n['pt'][0]) in ('double', 'float', 'long double'):
        return fn('lowprec', sval(I, st, fr, n, a[0]))
    return tostr(sval(I, st, fr, n, a[0]))


@model('atoi', 'atol', 'atof', 'atoll', 'std::atoi', 'std::atof', 'std::atol', 'strtod', 'strtol', 'strtoul', 'std::strtod', 'std::strtol',
       'std::stod', 'std::stoi', 'std::stol', 'std::stoul', 'std::stof', 'std::strtoul', 'std::stoull', 'std::stoll')
def m_parse(I, st, fr, i, n, a):
    nm = n['n']
    s = sval(I, st, fr, n, a[0])
    if s.op == 'fn' and s.a[0] == 'optarg' and len(s.a) == 2:
        c = I.iv(st, s.a[1]).const()
        if c is not None:           # the texts given to different options are different values
            s = fn('optarg', s.a[1], K(c))
    v = fn(nm, s)
    if s.op == 's':
        try:
            v = K(float(s.a[0]) if nm in ('atof', 'stod', 'strtod', 'stof') else int(s.a[0]))
        except ValueError:
            pass
    if nm in ('strtod', 'strtol', 'strtoul') and len(a) > 1 and not isinstance(a[1], L) and a[1].op == 'addr':
        I.store(st, a[1].a[0], fn('endptr', s))
    if nm in ('stod', 'stoi', 'stol', 'stoul', 'stof') and len(a) > 1 and not isinstance(a[1], L) and a[1].op == 'addr':
        I.store(st, a[1].a[0], fn('parsedlen', s))
    out = []
    if nm.startswith('sto') and v.op == 'fn':
        s2 = st.copy()
        I.throw(s2, 'std::invalid_argument', fr, n)
    I.hook('on_parse', st, fr, n, nm, s, v)
    return v


FN_RANGE['strtoul'] = Iv(0, INF, isint=True)
FN_RANGE['stoul'] = Iv(0, INF, isint=True)
FN_RANGE['parse_i'] = ITOP
FN_RANGE['floor'] = TOP


# ------------------------------------------------------------------ numbers
def folded(nm):
    f = {'abs': abs, 'fabs': abs, 'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'floor': math.floor, 'ceil': math.ceil, 'pow': math.pow, 'sin': math.sin,
         'cos': math.cos, 'tanh': math.tanh, 'sinh': math.sinh, 'cosh': math.cosh, 'atan': math.atan}.get(nm)

    def m(I, st, fr, i, n, a):
        xs = [val(I, st, fr, n, x) if not (isinstance(x, L) and I.kind(n['pt'][j] if j < len(n.get('pt', [])) else '') in OBJ) else fresh('o') for j, x in enumerate(a)]
        if f and all(isnum(x) for x in xs):
            try:
                return K(f(*[x.a[0] for x in xs]))
            except (ValueError, OverflowError, ZeroDivisionError):
                pass
        name = 'abs' if nm == 'fabs' else nm
        if nm == 'pow' and len(xs) == 2 and isnum(xs[1]) and xs[1].a[0] == 2:
            return mul(xs[0], xs[0])
        return fn(name, *xs)
    return m


for _nm in ('abs', 'fabs', 'sqrt', 'exp', 'log', 'log10', 'log2', 'floor', 'ceil', 'round', 'pow', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'atan', 'atan2', 'atanh',
            'isfinite', 'isnan', 'isinf', 'isnormal', 'signbit', 'copysign', 'fmod', 'hypot', 'expm1', 'log1p', 'max', 'min', 'gsl_atanh', 'gsl_fcmp', 'erf', 'erfc', 'tgamma', 'lgamma',
            'lround', 'real', 'imag', 'conj', 'norm', 'arg', 'polar', 'toupper', 'tolower', 'isspace', 'isdigit', 'isalpha', 'isxdigit', 'isalnum', 'fmax', 'fmin'):
    for _p in ('', 'std::'):
        MODELS[_p + _nm] = folded(_nm)
for _nm in ('isspace', 'isdigit', 'isalpha'):
    FN_RANGE[_nm] = ITOP


@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::epsilon', 'std::numeric_limits::quiet_NaN', 'std::numeric_limits::infinity', 'std::numeric_limits::lowest')
def m_limits(I, st, fr, i, n, a):
    t = strip_t(n['t'])
    k = I.kind(t)
    if n['n'] == 'quiet_NaN':
        return fn('nan')
    if k == 'flt':
        return K({'max': 1.7976931348623157e308, 'min': 2.2250738585072014e-308, 'epsilon': 2.220446049250313e-16, 'infinity': math.inf, 'lowest': -1.7976931348623157e308}.get(n['n'], 0))
    if 'unsigned long' in t or t == 'size_t':
        return K(2**64 - 1 if n['n'] == 'max' else 0)
    if t == 'int':
        return K(2**31 - 1 if n['n'] == 'max' else -2**31)
    return fresh('limit')


@model('std::clamp')
def m_clamp(I, st, fr, i, n, a):
    x, l, h = [val(I, st, fr, n, v) for v in a[:3]]
    return fn('min', fn('max', x, l), h)


@model('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof')
def m_fwd(I, st, fr, i, n, a):
    if n['n'] == 'addressof':
        return mk('addr', tuple(a[0])) if isinstance(a[0], L) else a[0]
    return a[0]


@model('std::complex::real')
def m_real(I, st, fr, i, n, a):
    x = val(I, st, fr, n, a[0])
    if len(a) > 1:
        I.store(st, lo(I, st, a[0]), fresh('complex'))
        return NOVAL
    return fn('real', x)


@model('std::complex::imag')
def m_imag(I, st, fr, i, n, a):
    x = val(I, st, fr, n, a[0])
    if len(a) > 1:
        I.store(st, lo(I, st, a[0]), fresh('complex'))
        return NOVAL
    return fn('imag', x)


@model('std::complex::operator=', 'std::complex::operator+=', 'std::complex::operator-=', 'std::complex::operator*=', 'std::complex::operator/=')
def m_cassign(I, st, fr, i, n, a):
    y = val(I, st, fr, n, a[1])
    if n['n'] != 'operator=':
        y = fn('c' + n['n'][8], val(I, st, fr, n, a[0]), y)
    if isinstance(a[0], L):
        I.store(st, tuple(a[0]), y)
        I.hook('on_assign', st, fr, n, tuple(a[0]), y)
    return a[0]


# ------------------------------------------------------------------ containers
def elemtype(t):
    t = strip_t(t)
    if '<' not in t:
        return ''
    s = t[t.index('<') + 1:-1]
    d = 0
    out = ''
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == ',' and d == 0:
            break
        out += ch
    return out


def maptypes(t):
    t = strip_t(t)
    s = t[t.index('<') + 1:-1]
    d = 0
    parts = ['']
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            parts.append('')
        else:
            parts[-1] += ch
    return [p.strip() for p in parts]


def zero_elem(I, st, loc, et):
    """value-initialised element"""
    k = I.kind(et)
    if k in ('int', 'flt', 'ptr') or et.startswith('std::complex'):
        st.put(loc, K(0))
    elif k == 'str':
        st.put(loc, S(''))


@model('ctor:seq')
def ctor_seq(I, st, fr, i, n, vs, loc):
    et = elemtype(n['t'])
    if vs and (n.get('copy') or n.get('move')) and isinstance(vs[0], L):
        I.copy_obj(st, tuple(vs[0]), loc)
        return [st]
    # a single argument of the same kind (elided copies, conversions from initializer lists)
    if len(vs) >= 1 and isinstance(vs[0], L) and i >= 0 and n.get('c') and I.kind(fr.fn.N[n['c'][0]]['t']) == 'seq' and 'iterator' not in fr.fn.N[n['c'][0]]['t']:
        I.copy_obj(st, tuple(vs[0]), loc)
        return [st]
    I.newobj(st, loc)
    st.put(loc + ('#new',), K(1))
    st.put(loc + ('#size',), K(0))
    st.put(loc + ('#et',), S(et))
    st.put(loc + ('#sorted',), K(1))
    real = [v for v, c in zip(vs, n.get('c', [])) if fr.fn.N[c]['k'] != 'defarg'] if i >= 0 else []
    if real:
        a0 = val(I, st, fr, n, real[0]) if not (isinstance(real[0], L) and I.kind(fr.fn.N[n['c'][0]]['t']) in OBJ) else None
        pts = n.get('pt', [])
        ct = fr.fn.N[n['c'][0]]['t']
        if a0 is not None and (I.kind(ct) == 'int' or (pts and I.kind(pts[0]) == 'int')):
            st.put(loc + ('#size',), a0)
            I.hook('on_alloc', st, fr, n, loc, a0)
            if len(real) > 1:
                I.put_elem(st, loc, real[1], fr, fr.fn.N[n['c'][1]])
            else:
                zero_elem(I, st, loc + ('#elem',), et)
            return [st]
        # iterator pair or unknown: contents from elsewhere
        b = absint.argv_off(a0) if a0 is not None else None
        if b is not None and len(real) > 1:
            e = absint.argv_off(val(I, st, fr, n, real[1]))
            if e is not None:
                st.put(loc + ('#size',), sub(e, b))
                st.put(loc + ('#argv',), b)
                st.put(loc + ('#sorted',), K(0))
                if not isnum(sub(e, b)) and I.iv(st, sub(e, b)).lo < 0:
                    I.hook('on_argv', st, fr, n, sub(b, K(1)))
                return [st]
        if a0 is not None and a0.op == 'it':
            src = a0.a[0]
            for p, v in st.subs(src):
                if not (p and p[-1] == '#ep'):
                    st.put(loc + ('#elem',) + p, v)
            full = len(real) > 1 and val(I, st, fr, n, real[1]).op == 'it' and val(I, st, fr, n, real[1]).a[1] == 'end' and isnum(a0.a[1]) if isinstance(a0.a[1], Term) else False
            sz = st.raw(src[:-1] + ('#size',)) if full else None
            st.put(loc + ('#size',), sz if sz is not None else fresh('size', 0, None, False, True))
            st.put(loc + ('#sorted',), K(0))
            return [st]
        I.havoc(st, loc)
        st.put(loc + ('#size',), fresh('size', 0, None, False, True))
        st.put(loc + ('#et',), S(et))
        st.put(loc + ('#sorted',), K(0))
    return [st]


@model('ctor:map')
def ctor_map(I, st, fr, i, n, vs, loc):
    if vs and isinstance(vs[0], L) and (n.get('copy') or n.get('move')):
        I.copy_obj(st, tuple(vs[0]), loc)
        return [st]
    I.newobj(st, loc)
    st.put(loc + ('#new',), K(1))
    st.put(loc + ('#size',), K(0))
    if vs and isinstance(vs[0], L):
        I.havoc(st, loc)
    return [st]


@model('ctor:pair')
def ctor_pair(I, st, fr, i, n, vs, loc):
    if len(vs) == 1 and isinstance(vs[0], L):
        I.copy_obj(st, tuple(vs[0]), loc)
        return [st]
    st.kill(loc)
    nm = ('first', 'second') if strip_t(n['t']).startswith('std::pair') else tuple(('#t', j) for j in range(len(vs)))
    ts = maptypes(n['t'])
    if not vs:
        for f, t in zip(nm if nm else (), ts):
            zero_elem(I, st, loc + (f,), t)
            if I.kind(t) in OBJ:
                I.default_obj(st, fr, loc + (f,), t)
        return [st]
    for j, v in enumerate(vs[:len(nm)]):
        setfield(I, st, fr, n, loc + (nm[j],), v, ts[j] if j < len(ts) else '')
    return [st]


def setfield(I, st, fr, n, loc, v, t):
    if isinstance(v, L):
        if I.kind(t) in OBJ:
            I.copy_obj(st, tuple(v), loc)
            return
        v = I.load(st, v, fr, n)
    st.kill(loc)
    st.put(loc, v)


@model('ctor:optional')
def ctor_opt(I, st, fr, i, n, vs, loc):
    st.kill(loc)
    setopt(I, st, fr, n, loc, vs, elemtype(n['t']), i)
    return [st]


def setopt(I, st, fr, n, loc, vs, et, i=-1):
    if not vs:
        st.put(loc + ('#has',), K(0))
        return
    v = vs[0]
    c = n.get('c', [])
    ci = c[-1] if n.get('k') != 'ctor' else (c[0] if c else -1)
    srct = fr.fn.N[ci]['t'] if ci is not None and ci >= 0 else ''
    if 'nullopt' in srct:
        st.kill(loc)
        st.put(loc + ('#has',), K(0))
        return
    if I.kind(srct) == 'optional' and isinstance(v, L):
        I.copy_obj(st, tuple(v), loc)
        return
    st.kill(loc)
    st.put(loc + ('#has',), K(1))
    setfield(I, st, fr, n, loc + ('#val',), v, et)


@model('std::optional::operator=')
def m_optassign(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    v = a[1]
    if isinstance(v, L) and (st.raw(tuple(v) + ('#has',)) is not None):
        I.copy_obj(st, tuple(v), loc)
    elif n.get('pt') and 'optional' in n['pt'][0] and isinstance(v, L):
        I.copy_obj(st, tuple(v), loc)
    elif n.get('pt') and 'nullopt' in n['pt'][0]:
        st.kill(loc)
        st.put(loc + ('#has',), K(0))
    else:
        st.kill(loc)
        st.put(loc + ('#has',), K(1))
        setfield(I, st, fr, n, loc + ('#val',), v, n['pt'][0] if n.get('pt') else '')
    return a[0]


@model('std::optional::operator bool', 'std::optional::has_value')
def m_opthas(I, st, fr, i, n, a):
    t = st.get(lo(I, st, a[0], fr, n) + ('#has',))
    if t.op == 'init':
        return fn('b', S('has'), t)
    return t


@model('std::optional::value', 'std::optional::operator*')
def m_optval(I, st, fr, i, n, a):
    return L(lo(I, st, a[0], fr, n) + ('#val',))


@model('std::optional::operator->')
def m_optarrow(I, st, fr, i, n, a):
    return mk('addr', lo(I, st, a[0], fr, n) + ('#val',))


@model('std::optional::value_or')
def m_optor(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    h = m_opthas(I, st, fr, i, n, [a[0]])
    s2 = st.copy()
    out = []
    if I.assume(st, h, True):
        out.append((st, st.get(loc + ('#val',))))
    if I.assume(s2, h, False):
        out.append((s2, val(I, s2, fr, n, a[1])))
    return out


@model('std::optional::reset')
def m_optreset(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    st.kill(loc)
    st.put(loc + ('#has',), K(0))
    return NOVAL


@model('std::make_pair')
def m_makepair(I, st, fr, i, n, a):
    loc = I.tmp(fr, i)
    st.kill(loc)
    ts = maptypes(n['t'])
    for f, v, t in zip(('first', 'second'), a, ts):
        setfield(I, st, fr, n, loc + (f,), v, t)
    return L(loc)


@model('std::tie', 'std::forward_as_tuple')
def m_tie(I, st, fr, i, n, a):
    loc = I.tmp(fr, i)
    st.kill(loc)
    for j, v in enumerate(a):
        if isinstance(v, L):
            st.put(loc + (('#t', j), '#ref'), mk('addr', tuple(v)))
        else:
            st.put(loc + (('#t', j),), v)
    return L(loc)


@model('std::make_tuple')
def m_mktuple(I, st, fr, i, n, a):
    loc = I.tmp(fr, i)
    st.kill(loc)
    ts = maptypes(n['t'])
    for j, v in enumerate(a):
        setfield(I, st, fr, n, loc + (('#t', j),), v, ts[j] if j < len(ts) else '')
    return L(loc)


@model('std::tuple::operator=')
def m_tupassign(I, st, fr, i, n, a):
    d, s = lo(I, st, a[0], fr, n), lo(I, st, a[1], fr, n)
    ts = [x.rstrip('& ') for x in maptypes(n['t'])]
    for j in range(6):
        r = st.raw(d + (('#t', j), '#ref'))
        if r is None:
            continue
        for f in (('#t', j), 'first' if j == 0 else 'second'):
            if f in ('first', 'second') and j > 1:
                continue
            v = st.raw(s + (f,))
            if v is not None or st.subs(s + (f,)):
                break
        if j < len(ts) and I.kind(ts[j]) in OBJ:
            if v is None and not st.subs(s + (f,)):
                f = 'first' if 'pair<' in (n.get('pt') or [''])[0] and j == 0 else 'second' if 'pair<' in (n.get('pt') or [''])[0] else ('#t', j)
            I.copy_obj(st, s + (f,), r.a[0])
            continue
        if v is None:
            f = 'first' if j == 0 else 'second' if j == 1 else ('#t', j)
            v = st.get(s + (f,))
            if st.subs(s + (f,)):
                I.copy_obj(st, s + (f,), r.a[0])
                continue
        if st.subs(s + (f,)) and len(st.subs(s + (f,))) > 1:
            I.copy_obj(st, s + (f,), r.a[0])
        else:
            I.store(st, r.a[0], v)
    return a[0]


@model('std::get')
def m_get(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    return L(loc + (('#get', n['t']),))


@model('std::pair::operator=', 'std::map::operator=', 'std::vector::operator=', 'std::list::operator=', 'std::deque::operator=', 'std::unordered_map::operator=', 'std::set::operator=',
       'std::basic_ifstream::operator=', 'std::basic_ofstream::operator=')
def m_objassign(I, st, fr, i, n, a):
    if isinstance(a[1], L):
        d = lo(I, st, a[0], fr, n)
        s = tuple(a[1])
        if I.weak(d):
            for p, v in st.subs(s):
                if not (p and p[-1] == '#ep'):
                    I.store(st, d + p, v)
        elif st.raw(d + ('first', '#ref')) is not None:
            for f in ('first', 'second'):
                r = st.raw(d + (f, '#ref'))
                if r is not None:
                    I.store(st, r.a[0], st.get(s + (f,)))
        else:
            I.copy_obj(st, s, d)
        I.hook('on_objassign', st, fr, n, d, s)
    else:
        I.havoc(st, lo(I, st, a[0], fr, n))
    return a[0]


def size_of(I, st, loc):
    t = st.get(loc + ('#size',))
    if t.op == 'init':
        return fn('size', t)
    return t


@model('std::vector::size', 'std::map::size', 'std::set::size', 'std::list::size', 'std::deque::size', 'std::array::size', 'std::initializer_list::size', 'std::unordered_map::size', 'std::size')
def m_size(I, st, fr, i, n, a):
    return size_of(I, st, lo(I, st, a[0], fr, n))


@model('std::vector::empty', 'std::map::empty', 'std::set::empty', 'std::list::empty', 'std::deque::empty', 'std::unordered_map::empty', 'std::array::empty')
def m_empty(I, st, fr, i, n, a):
    return I.cmpterm('==', size_of(I, st, lo(I, st, a[0], fr, n)), K(0), 'i')


def touched(st, loc):
    st.put(loc + ('#sorted',), K(0))
    if st.raw(loc + ('#uniq',)) is not None:
        st.kill(loc + ('#uniq',))


def emplace_ctor(I, cls, n, args):
    """the constructor of the element class that emplace_back(args...) selects, if it is clear"""
    c = I.prog.classes.get(cls)
    if c is None or any(strip_t(t.replace('const ', '').rstrip('& ')) == cls for t in n.get('pt', [])):
        return None
    fs = [I.prog.fns[m['fid']] for m in c['methods'] if m['kind'] == 'ctor' and m['user'] and m['fid'] in I.prog.fns]
    fs = [f for f in fs if len(f.params) == len(args) and not any(strip_t(p['t'].replace('const ', '').rstrip('& ')) == cls for p in f.params)]
    return fs[0] if len(fs) == 1 else None


@model('std::vector::push_back', 'std::list::push_back', 'std::deque::push_back', 'std::vector::emplace_back', 'std::list::emplace_back', 'std::deque::emplace_back',
       'std::deque::push_front', 'std::list::push_front', 'std::set::insert', 'std::set::emplace')
def m_push(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    sz = size_of(I, st, loc)
    I.hook('on_push', st, fr, n, loc, a[1:])
    et = st.raw(loc + ('#et',))
    if n['n'].startswith('emplace') and et is not None and I.kind(et.a[0]) == 'class':
        f = emplace_ctor(I, strip_t(et.a[0]), n, a[1:])
        if f is not None:
            tmp = I.tmp(fr, i)
            st.kill(tmp)
            st.put(tmp + ('#type',), mk('type', strip_t(et.a[0])))
            out = []
            for s, _ in I.inline(f, st, fr, i, n, a[1:], this=tmp):
                I.put_elem(s, loc, L(tmp), fr, {'t': et.a[0]})
                s.put(loc + ('#size',), add(size_of(I, s, loc), K(1)))
                touched(s, loc)
                out.append((s, L(loc + ('#elem',))))
            return out
    if len(a) == 2:
        pt = n['pt'][0] if n.get('pt') else ''
        I.put_elem(st, loc, a[1], fr, {'t': pt})
    elif len(a) == 3:
        for f, v in zip(('first', 'second'), a[1:]):
            I.put_elem(st, loc, a[1], fr, {'t': ''}) if False else I.store(st, loc + ('#elem', f), val(I, st, fr, n, v) if not isinstance(v, L) or not st.subs(tuple(v)) or st.raw(tuple(v)) is not None else fresh('e'))
    st.put(loc + ('#size',), add(sz, K(1)))
    touched(st, loc)
    if n['n'] == 'insert':
        return I.result(i, n, st, fr)
    return L(loc + ('#elem',))


@model('std::vector::resize', 'std::list::resize', 'std::deque::resize')
def m_resize(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    old = size_of(I, st, loc)
    sz = val(I, st, fr, n, a[1])
    et = elemtype('v<' + st.raw(loc + ('#et',)).a[0] + '>') if st.raw(loc + ('#et',)) is not None else ''
    st.put(loc + ('#size',), sz)
    I.hook('on_alloc', st, fr, n, loc, sz)
    if isnum(old) and old.a[0] == 0:
        st.kill(loc + ('#elem',))
        zero_elem(I, st, loc + ('#elem',), et)
    else:
        I.store(st, loc + ('#elem',), K(0)) if I.kind(et) in ('int', 'flt') else None
    touched(st, loc)
    return NOVAL


@model('std::vector::assign')
def m_assign(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    st.kill(loc + ('#elem',))
    st.put(loc + ('#new',), K(1))
    if len(a) == 3 and I.kind(n['pt'][0]) == 'int':
        st.put(loc + ('#size',), val(I, st, fr, n, a[1]))
        I.put_elem(st, loc, a[2], fr, {'t': n['pt'][1]})
    else:
        I.havoc(st, loc)
    touched(st, loc)
    return NOVAL


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def m_reserve(I, st, fr, i, n, a):
    return NOVAL


@model('std::vector::clear', 'std::map::clear', 'std::list::clear', 'std::set::clear', 'std::deque::clear', 'std::unordered_map::clear')
def m_clear2(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    et = st.raw(loc + ('#et',))
    I.newobj(st, loc)
    st.put(loc + ('#new',), K(1))
    st.put(loc + ('#size',), K(0))
    st.put(loc + ('#sorted',), K(1))
    if et is not None:
        st.put(loc + ('#et',), et)
    return NOVAL


@model('std::vector::swap', 'std::swap', 'std::basic_string::swap')
def m_swap(I, st, fr, i, n, a):
    if isinstance(a[0], L) and isinstance(a[1], L):
        x, y = tuple(a[0]), tuple(a[1])
        t = I.tmp(fr, i)
        for s, d in ((x, t), (y, x), (t, y)):
            if st.raw(s) is not None:
                v = st.raw(s)
                st.kill(d)
                st.put(d, v)
            else:
                I.copy_obj(st, s, d)
    return NOVAL


@model('std::vector::pop_back', 'std::list::pop_front', 'std::deque::pop_front', 'std::list::pop_back', 'std::deque::pop_back')
def m_pop(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    st.put(loc + ('#size',), fresh('size', 0, None, False, True))
    return NOVAL


@model('std::vector::erase', 'std::list::erase', 'std::map::erase', 'std::set::erase')
def m_erase(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    old = size_of(I, st, loc)
    sz = fresh('size', 0, None, False, True)
    st.put(loc + ('#size',), sz)
    h = I.iv(st, old).hi
    if h < INF:
        st.facts[sz] = Iv(0, h, isint=True)
    return I.result(i, n, st, fr)


@model('std::vector::front', 'std::vector::back', 'std::list::front', 'std::list::back', 'std::deque::front', 'std::deque::back', 'std::array::front', 'std::array::back')
def m_front(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    b = st.raw(loc + ('#argv',))
    if b is not None:
        I.hook('on_argv', st, fr, n, b)
    I.hook('on_front', st, fr, n, loc)
    return LC(loc + ('#elem',), S(n['n']))


@model('std::vector::operator[]', 'std::vector::at', 'std::array::operator[]', 'std::array::at', 'std::deque::operator[]', 'std::deque::at')
def m_index(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    ix = val(I, st, fr, n, a[1])
    b = st.raw(loc + ('#argv',))
    if b is not None and n['n'] != 'at':
        I.hook('on_argv', st, fr, n, add(b, ix))
    I.hook('on_index', st, fr, n, loc, ix)
    return LC(loc + ('#elem',), ix)


@model('std::vector::data', 'std::array::data')
def m_data(I, st, fr, i, n, a):
    return mk('addr', lo(I, st, a[0], fr, n) + ('#elem',))


def kvloc(st, loc):
    el = loc + ('#kv',)
    st.put(el + ('first', '#ref'), mk('addr', loc + ('#key',)))
    st.put(el + ('second', '#ref'), mk('addr', loc + ('#elem',)))
    return el


@model('std::vector::begin', 'std::vector::cbegin', 'std::vector::end', 'std::vector::cend', 'std::list::begin', 'std::list::end', 'std::deque::begin', 'std::deque::end', 'std::vector::rbegin',
       'std::vector::rend', 'std::map::begin', 'std::map::end', 'std::map::cbegin', 'std::map::cend', 'std::set::begin', 'std::set::end', 'std::begin', 'std::end', 'std::cbegin', 'std::cend',
       'std::array::begin', 'std::array::end', 'std::unordered_map::begin', 'std::unordered_map::end', 'std::initializer_list::begin', 'std::initializer_list::end')
def m_iter(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    ismap = 'map' in n.get('cls', '') or (n.get('pt') and 'map<' in n['pt'][0] and not n.get('cls'))
    el = kvloc(st, loc) if ismap else loc + ('#elem',)
    if n['n'] in ('end', 'cend', 'rend'):
        return mk('it', el, 'end')
    if n['n'] == 'rbegin':
        return mk('it', el, fresh('itpos'))
    return mk('it', el, K(0))


@model('__gnu_cxx::__normal_iterator::operator*', 'std::_Rb_tree_iterator::operator*', 'std::_Rb_tree_const_iterator::operator*', 'std::_List_iterator::operator*', 'std::reverse_iterator::operator*')
def m_deref(I, st, fr, i, n, a):
    return L(I.deref(st, a[0], fr, n))


@model('__gnu_cxx::__normal_iterator::operator->', 'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->', 'std::_List_iterator::operator->')
def m_arrow(I, st, fr, i, n, a):
    return mk('addr', I.deref(st, a[0], fr, n))


@model('__gnu_cxx::__normal_iterator::operator++', 'std::_Rb_tree_iterator::operator++', 'std::_Rb_tree_const_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--',
       'std::_List_iterator::operator++', '__gnu_cxx::__normal_iterator::operator+=')
def m_itinc(I, st, fr, i, n, a):
    v = val(I, st, fr, n, a[0])
    nv = I.ptradd(v, K(-1) if '--' in n['n'] else K(1) if '++' in n['n'] else val(I, st, fr, n, a[1]))
    if isinstance(a[0], L):
        I.store(st, tuple(a[0]), nv)
    return a[0]


@model('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def m_itadd(I, st, fr, i, n, a):
    v, d = val(I, st, fr, n, a[0]), val(I, st, fr, n, a[1])
    return I.ptradd(v, scale(d, -1) if n['n'].endswith('-') else d)


@model('__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<', 'std::operator==it')
def m_itcmp(I, st, fr, i, n, a):
    return I.itcmp(st, n['n'][8:], val(I, st, fr, n, a[0]), val(I, st, fr, n, a[1]))


@model('__gnu_cxx::operator-', 'std::distance')
def m_itdiff(I, st, fr, i, n, a):
    x, y = val(I, st, fr, n, a[0]), val(I, st, fr, n, a[1])
    if n['n'] == 'distance':
        x, y = y, x
    if x.op == 'it' and x.a[1] == 'end' and y.op == 'it' and isinstance(y.a[1], Term) and isnum(y.a[1]) and y.a[0] == x.a[0]:
        return sub(size_of(I, st, x.a[0][:-1]), y.a[1])
    return fresh('itdiff', None, None, False, True)


def keyloc(I, st, fr, n, loc, key):
    """location of the value stored under key"""
    if key.op == 's':
        return loc + (('#at', key.a[0]),)
    return loc + ('#elem',)


def mapver(st, loc):
    v = st.raw(loc + ('#ver',))
    return v if v is not None else mk('init', loc + ('#ver',), st.origin(loc)[1])


@model('std::map::find', 'std::unordered_map::find')
def m_find(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    key = val(I, st, fr, n, a[1]) if not (isinstance(a[1], L) and I.kind(n['pt'][0]) in OBJ) else fresh('key')
    f = st.raw(loc + (('#has', key.a[0]),)) if key.op == 's' else None
    if f is None:
        f = fn('found', mapver(st, loc), key)
    if isnum(st.get(loc + ('#size',))) and st.get(loc + ('#size',)).a[0] == 0 and st.raw(loc + ('#new',)) is not None:
        f = K(0)
    if key.op == 's':
        kl = loc + (('#at', key.a[0]),)
        I.hook('on_lookup', st, fr, n, loc, key)
        if st.raw(kl + ('second', '#ref')) is None:
            st.put(kl + ('second', '#ref'), mk('addr', kl + ('#v',)))
        return mk('it', kl, fn('found', f, K(0)) if not (f.op == 'fn' and f.a[0] == 'found') else f)
    el = kvloc(st, loc)
    return mk('it', el, f if f.op == 'fn' and f.a[0] == 'found' else fn('found', f, K(0)))


@model('std::map::count', 'std::map::contains', 'std::set::count', 'std::unordered_map::count', 'std::set::contains')
def m_count(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    key = val(I, st, fr, n, a[1]) if not (isinstance(a[1], L) and I.kind(n['pt'][0]) in OBJ) else fresh('key')
    if key.op == 's':
        I.hook('on_lookup', st, fr, n, loc, key)
        f = st.raw(loc + (('#has', key.a[0]),))
        if f is not None:
            return f
    return fn('found', mapver(st, loc), key)


@model('std::map::at', 'std::unordered_map::at')
def m_at(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    key = val(I, st, fr, n, a[1]) if not (isinstance(a[1], L) and I.kind(n['pt'][0]) in OBJ) else fresh('key')
    s2 = st.copy()
    I.throw(s2, 'std::out_of_range', fr, n)
    if key.op == 's':
        I.hook('on_lookup', st, fr, n, loc, key)
        return L(loc + (('#at', key.a[0]), '#v'))
    return L(loc + ('#elem',))


def map_write(I, st, fr, n, loc, key):
    """an element under key now exists; returns its location"""
    sz = size_of(I, st, loc)
    if key.op == 's':
        st.put(loc + (('#has', key.a[0]),), K(1))
        st.put(loc + ('#size',), fresh('size', 1, None, False, True))
        return loc + (('#at', key.a[0]), '#v')
    I.store(st, loc + ('#key',), key)
    ns = fresh('size', 1, None, False, True)
    st.put(loc + ('#size',), ns)
    st.put(loc + ('#ver',), fresh('ver'))
    st.put(loc + ('#ep',), mk('ep', loc, fresh('mapep')))
    return loc + ('#elem',)


@model('std::map::operator[]', 'std::unordered_map::operator[]')
def m_mapidx(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    key = val(I, st, fr, n, a[1]) if not (isinstance(a[1], L) and I.kind(n['pt'][0]) in OBJ) else fresh('key')
    l2 = map_write(I, st, fr, n, loc, key)
    if st.raw(l2) is None and key.op != 's' and not st.subs(l2):
        zero_elem(I, st, l2, strip_t(n['t']))
        if st.raw(l2) is not None and st.raw(loc + ('#fresh',)) is None:
            # the summary element may also be an older one
            p = fresh('mapval', None, None, True, False) if I.kind(n['t']) == 'flt' else fresh('mapval')
            st.put(l2, p)
    I.hook('on_mapidx', st, fr, n, loc, key, l2)
    return L(l2)


@model('std::map::insert_or_assign', 'std::map::emplace', 'std::map::try_emplace', 'std::map::insert')
def m_mapins(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    ins = None
    if n['n'] == 'insert':
        key = st.get(tuple(a[1]) + ('first',)) if len(a) == 2 and isinstance(a[1], L) and 'pair<' in (n.get('pt') or [''])[0] else fresh('key')
        if key.op != 's':
            ins = I.cmpterm('==', fn('found', mapver(st, loc), key), K(0), 'i')
        else:
            key = fresh('key')
        l2 = map_write(I, st, fr, n, loc, key)
        I.havoc(st, l2)
    else:
        key = val(I, st, fr, n, a[1])
        if key.op != 's' and n['n'] != 'insert_or_assign':
            ins = I.cmpterm('==', fn('found', mapver(st, loc), key), K(0), 'i')
        l2 = map_write(I, st, fr, n, loc, key)
        if len(a) > 2:
            if isinstance(a[2], L) and (I.kind(n['pt'][1]) in OBJ):
                I.put_elem(st, loc, a[2], fr, {'t': n['pt'][1]}) if l2[-1] == '#elem' else I.copy_obj(st, tuple(a[2]), l2)
            else:
                I.store(st, l2, val(I, st, fr, n, a[2]))
    r = I.tmp(fr, i)
    st.kill(r)
    st.put(r + ('first',), fresh('it'))
    st.put(r + ('second',), fresh('inserted', 0, 1, False, True) if ins is None else ins)
    I.hook('on_mapins', st, fr, n, loc, key)
    return L(r)


@model('std::sort', 'std::stable_sort')
def m_sort(I, st, fr, i, n, a):
    b, e = val(I, st, fr, n, a[0]), val(I, st, fr, n, a[1])
    if b.op == 'it' and e.op == 'it' and b.a[0] == e.a[0]:
        full = isinstance(b.a[1], Term) and isnum(b.a[1]) and b.a[1].a[0] == 0 and e.a[1] == 'end'
        if full:
            st.put(b.a[0][:-1] + ('#sorted',), K(1) if len(a) == 2 else fn('sortedby', val(I, st, fr, n, a[2]) if not isinstance(a[2], L) else val(I, st, fr, n, a[2])))
        I.hook('on_sort', st, fr, n, b.a[0][:-1], full)
    return NOVAL


@model('std::unique', 'std::remove', 'std::remove_if')
def m_unique(I, st, fr, i, n, a):
    if n.get('pt') and 'char *' in n['pt'][0]:
        return m_fs(I, st, fr, i, n, a)
    b = val(I, st, fr, n, a[0])
    states = [st]
    for x in a[2:]:
        v = val(I, st, fr, n, x)
        if v.op in ('lam', 'func'):
            states = [s2 for s in states for s2 in I.callback(v, s, fr, i, n)]
    r = mk('it', b.a[0], fresh('itpos')) if b.op == 'it' else fresh('it')
    return [(s, r) for s in states]


@model('std::transform', 'std::for_each', 'std::copy', 'std::copy_if', 'std::accumulate', 'std::fill', 'std::find', 'std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::reverse',
       'std::lower_bound', 'std::upper_bound', 'std::generate', 'std::iota', 'std::max_element', 'std::min_element', 'std::is_sorted', 'std::inner_product', 'std::transform_reduce', 'std::reduce',
       'std::unique_copy', 'std::adjacent_find', 'std::count_if', 'std::swap_ranges', 'std::equal', 'std::ranges::sort', 'std::mismatch', 'std::count', 'std::generate_n', 'std::copy_n', 'std::fill_n')
def m_algo(I, st, fr, i, n, a):
    nm = n['n']
    xs = [val(I, st, fr, n, v) if not (isinstance(v, L) and st.raw(tuple(v)) is None) else v for v in a]
    lam = next((x for x in xs if not isinstance(x, L) and x.op in ('lam', 'func')), None)
    its = [x for x in xs if not isinstance(x, L) and x.op == 'it']
    states = [st]
    if nm == 'copy' and len(xs) == 3 and not isinstance(xs[2], L) and xs[2].op == 'ostream_it':
        loc = xs[2].a[0]
        el = its[0].a[0] if its else None
        I.hook('on_write', st, fr, n, loc, L(el) if el else fresh('e'), xs[2].a[1])
        s_io(I, st, loc, 'out')
        return fresh('oit')
    if lam is not None:
        args = [L(x.a[0]) for x in its[:1]]
        if nm == 'transform' and len(its) >= 4:
            args.append(L(its[2].a[0]))
        if nm in ('accumulate',):
            args = None
        if nm in ('generate', 'generate_n'):
            args = []
        out = its[-1] if nm == 'transform' and len(its) >= 3 else its[0] if nm == 'generate' and its else None
        nst = []
        for s in states:
            nst += callback_store(I, lam, s, fr, i, n, args, out.a[0] if out is not None and nm in ('transform', 'generate') else None)
        states = nst
    else:
        if nm == 'copy' and len(its) == 3:
            for p, v in st.subs(its[0].a[0]):
                if not (p and p[-1] == '#ep'):
                    I.store(st, its[2].a[0] + p, v)
        elif nm in ('fill', 'iota') and its:
            I.store(st, its[0].a[0], xs[2] if not isinstance(xs[2], L) else fresh('fill'))
    if nm in ('transform', 'copy', 'fill', 'generate', 'reverse', 'iota', 'swap_ranges'):
        for s in states:
            o = its[-1] if its else None
            if o is not None:
                s.put(o.a[0][:-1] + ('#sorted',), K(0))
    if nm in ('find', 'find_if', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'adjacent_find') and its:
        return [(s, mk('it', its[0].a[0], fresh('itpos'))) for s in states]
    return [(s, I.result(i, n, s, fr)) for s in states]


def callback_store(I, lm, st, fr, i, n, args, dst):
    from absint import Out
    g = I.prog.fns.get(lm.a[0])
    if g is None:
        return [st]

    def body(s):
        vs = []
        for p in g.params:
            if args is not None and len(vs) < len(args):
                vs.append(args[len(vs)])
                continue
            if I.kind(p['t']) in OBJ or '&' in p['t']:
                loc = (('cb', i, p['id'], fr.ctx),)
                I.havoc(s, loc)
                vs.append(L(loc))
            else:
                vs.append(I.fresh_of(p['t'], p['n']))
        o = Out()
        for s2, v in I.call_value(lm, s, fr, i, n, vs, g if g.kind == 'lambda' else None):
            if dst is not None:
                if isinstance(v, L):
                    if I.kind(g.d['ret']) in OBJ:
                        I.put_elem(s2, dst[:-1], v, fr, {'t': g.d['ret']})
                    else:
                        I.store(s2, dst, I.load(s2, v, fr, n))
                else:
                    I.store(s2, dst, v)
            o.n.append(s2)
        return o
    return I.loop([st], fr, i, n, cond=None, body=body, inc=None).n


@model('std::ostream_iterator::ostream_iterator', 'std::ostream_iterator::')
def m_oit(I, st, fr, i, n, a):
    return mk('ostream_it', lo(I, st, a[0], fr, n), elemtype(n['t']))


@model('std::back_inserter')
def m_backins(I, st, fr, i, n, a):
    loc = lo(I, st, a[0], fr, n)
    st.put(loc + ('#size',), fresh('size', 0, None, False, True))
    touched(st, loc)
    return mk('it', loc + ('#elem',), fresh('itpos'))


# ------------------------------------------------------------------ smart pointers
@model('std::unique_ptr::get', 'std::shared_ptr::get', 'std::unique_ptr::operator->', 'std::shared_ptr::operator->')
def m_upget(I, st, fr, i, n, a):
    return val(I, st, fr, n, a[0])


@model('std::unique_ptr::operator*', 'std::shared_ptr::operator*')
def m_upderef(I, st, fr, i, n, a):
    return L(I.deref(st, val(I, st, fr, n, a[0]), fr, n))


@model('std::unique_ptr::operator bool', 'std::shared_ptr::operator bool')
def m_upbool(I, st, fr, i, n, a):
    return I.boolify(val(I, st, fr, n, a[0]))


@model('std::unique_ptr::reset', 'std::shared_ptr::reset')
def m_upreset(I, st, fr, i, n, a):
    v = val(I, st, fr, n, a[1]) if len(a) > 1 else K(0)
    I.hook('on_upreset', st, fr, n, lo(I, st, a[0], fr, n), v)
    if isinstance(a[0], L):
        I.store(st, tuple(a[0]), v)
    return NOVAL


@model('std::unique_ptr::operator=', 'std::shared_ptr::operator=')
def m_upassign(I, st, fr, i, n, a):
    v = val(I, st, fr, n, a[1])
    if isinstance(a[0], L):
        I.store(st, tuple(a[0]), v)
    if isinstance(a[1], L):
        I.store(st, tuple(a[1]), K(0))
    return a[0]


@model('std::make_unique', 'std::make_shared')
def m_mkuniq(I, st, fr, i, n, a):
    loc = (('h', i, fr.fn.fid, fr.ctx),)
    t = elemtype(n['t']) or ''
    k = I.kind(t)
    if k == 'stream':
        st.kill(loc)
        return [(s, mk('addr', loc)) for s in ctor_stream(I, st, fr, i, {'t': t, 'c': n.get('c', []), 'l': n['l']}, a, loc)]
    if k == 'class':
        cls = I.prog.classes[strip_t(t)]
        cs = [f for f in (I.prog.fns.get(m['fid']) for m in cls['methods'] if m['kind'] == 'ctor' and not m['deleted']) if f is not None
              and len(f.params) >= len(a) and all('def' in p for p in f.params[len(a):])
              and all((I.kind(p['t']) == 'class') <= isinstance(v, L) for p, v in zip(f.params, a))]
        if len(cs) == 1 and fr.depth < I.MAXDEPTH and not I.recursive(fr, cs[0]):
            st.kill(loc)
            st.put(loc + ('#type',), mk('type', strip_t(t)))
            return [(s, mk('addr', loc)) for s, _ in I.inline(cs[0], st, fr, i, n, a, this=loc)]
    I.havoc(st, loc)
    return mk('addr', loc)


@model('std::function::operator()')
def m_fcall(I, st, fr, i, n, a):
    v = val(I, st, fr, n, a[0])
    if v.op in ('lam', 'func'):
        g = I.prog.fns.get(v.a[0])
        return I.call_value(v, st, fr, i, n, a[1:], g)
    return I.unknown(i, n, st, fr, a[1:], None)


@model('std::function::operator=')
def m_fassign(I, st, fr, i, n, a):
    if isinstance(a[0], L):
        I.store(st, tuple(a[0]), val(I, st, fr, n, a[1]))
    return a[0]


@model('std::function::operator bool')
def m_fbool(I, st, fr, i, n, a):
    v = val(I, st, fr, n, a[0])
    return K(1) if v.op in ('lam', 'func') else fresh('fn', 0, 1, False, True)


# ------------------------------------------------------------------ misc
@model('getopt')
def m_getopt(I, st, fr, i, n, a):
    opts = val(I, st, fr, n, a[2])
    v = fresh('getopt', -1, 127, False, True)
    st.put((('g', 'optarg'),), fn('optarg', v))
    oi = fresh('optind', 1, None, False, True)
    st.put((('g', 'optind'),), oi)
    argc = val(I, st, fr, n, a[0])
    I.refine(st, sub(oi, argc), Iv(hi=0, nan=False, isint=True))
    r = I.hook('on_getopt', st, fr, n, opts, v)
    return v if r is None else r


@model('fopen', 'std::fopen')
def m_fopen(I, st, fr, i, n, a):
    name, mode = val(I, st, fr, n, a[0]), val(I, st, fr, n, a[1])
    o = fresh('opened', 0, 1, False, True)
    d = 'out' if mode.op == 's' and mode.a[0][:1] in ('w', 'a') else 'in'
    I.hook('on_open', st, fr, n, None, name, d, o)
    return o


@model('fclose', 'std::fclose', 'fflush', 'ferror', 'fprintf', 'printf', 'puts', 'std::printf', 'std::fprintf')
def m_cio(I, st, fr, i, n, a):
    for x in a:
        val(I, st, fr, n, x) if not isinstance(x, L) else None
    return fresh('cio', None, None, False, True)


@model('std::exception::what', 'std::runtime_error::what', 'std::logic_error::what')
def m_what(I, st, fr, i, n, a):
    return fresh('what')


@model('std::exception::exception')
def m_ex(I, st, fr, i, n, a):
    return fresh('exception')


@model('gsl_set_error_handler_off', 'gsl_set_error_handler')
def m_gslh(I, st, fr, i, n, a):
    return fresh('handler')


@model('memset', 'memcpy', 'std::memcpy', 'std::memset')
def m_mem(I, st, fr, i, n, a):
    v = val(I, st, fr, n, a[0])
    if v.op == 'addr':
        I.havoc(st, v.a[0])
    return v


# ---------------------------------------------------------------- file system operations
def fs_name(I, st, fr, n, v):
    t = val(I, st, fr, n, v)
    while isinstance(t, Term) and (t.op == 'obj' or t.op == 'fn' and t.a[0] == 'obj'):
        x = [y for y in t.a if isinstance(y, Term)]
        if not x:
            break
        t = x[0]
    return t


@model('std::filesystem::rename', 'std::filesystem::remove', 'std::filesystem::remove_all', 'std::filesystem::copy_file', 'std::filesystem::copy', 'std::filesystem::resize_file',
       'std::filesystem::create_hard_link', 'std::filesystem::create_symlink', 'rename', 'remove', 'std::rename', 'unlink', 'link', 'symlink', 'rmdir')
def m_fs(I, st, fr, i, n, a):
    libc = not n.get('fn', '').startswith('std::filesystem')
    op = n['n']
    if op in ('remove', 'remove_all', 'unlink', 'rmdir', 'resize_file'):
        names = [fs_name(I, st, fr, n, a[0])]
    else:
        names = [fs_name(I, st, fr, n, x) for x in a[:2]]
    if libc:
        e = fresh('status', -1, 0, False, True)
        I.hook('on_fs', st, fr, n, op, names, e)
        return e
    pts = n.get('pt', [])
    e = K(0)
    if pts and 'error_code' in pts[-1]:
        e = fresh('ec', 0, 1, False, True)
        v = a[len(pts) - 1]
        if isinstance(v, L):
            I.havoc(st, tuple(v))
            st.put(lo(I, st, v, fr, n) + ('#ec',), e)
    I.hook('on_fs', st, fr, n, op, names, e)
    t = n.get('t', '')
    return NOVAL if t == 'void' else I.fresh_of(t, op)


@model('std::error_code::operator bool')
def m_ecb(I, st, fr, i, n, a):
    return st.get(lo(I, st, a[0], fr, n) + ('#ec',))


@model('std::error_code::value')
def m_ecv(I, st, fr, i, n, a):
    return st.get(lo(I, st, a[0], fr, n) + ('#ec',))
