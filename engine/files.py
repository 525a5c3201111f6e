"""Assumed contracts of std::fstream over a small file system: path (concrete) -> rope of bytes.

A stream is (base pointer, path or None, mode, position); its iostate lives in the memory of the object, where the
inlined good()/eof()/fail() read it.  Layout of libstdc++: virtual base ios at +264, iostate at ios+32."""
import alg
from alg import *
from symex import *
import symex as SX
from models import rx, throw_std
import strings as S
IOS, STATE = 264, 32
BAD, EOFB, FAIL = 1, 2, 4
IN, OUT, TRUNC, APP, ATE = 8, 16, 32, 1, 2


def key(p):
    return ('fs', p.o)


def fs(E, st, p):
    k = key(p)
    if k not in st.ghost:
        raise Unsupported('file stream')
    return st.ghost[k]


def setfs(st, p, v):
    st.ghost[key(p)] = v


def state(E, st, p):
    base = fs(E, st, p)[0]
    v = E.load(st, base.add(IOS + STATE), SX.IR.IntTy(32))
    if not isinstance(v, Poly) or not v.is_const():
        raise Unsupported('stream state')
    return v.cval()


def setstate(E, st, p, v):
    base = fs(E, st, p)[0]
    E.store(st, base.add(IOS + STATE), C(v), 4, 'i')


def gcount(E, st, p, v):
    E.store(st, p.add(8), v, 8, 'i')


@rx(r'^std::basic_fstream<char, std::char_traits<char> ?>::basic_fstream\(\)$')
def _(E, st, a, ins):
    p = a[0]
    for off, d in ((0, IOS), (16, IOS - 16)):
        o = E.new(st, C(64))
        st.mem[o].cells[0] = Cell(8, C(d), 'i')
        E.store(st, p.add(off), Ptr(o, C(24)), 8, 'p')
    setfs(st, p, (p, None, 0, ZERO))
    setstate(E, st, p, 0)
    gcount(E, st, p, ZERO)
    E.store(st, p.add(IOS + 28), ZERO, 4, 'i')


@rx(r'^std::basic_fstream<char, std::char_traits<char> ?>::~basic_fstream\(\)$|^std::basic_filebuf<char, std::char_traits<char> ?>::~basic_filebuf\(\)$')
def _(E, st, a, ins):
    st.ghost.pop(key(a[0]), None)


@rx(r'^std::ios_base::~ios_base\(\)$|^std::__basic_file<char>::~__basic_file\(\)$')
def _(E, st, a, ins):
    return None


@rx(r'^std::basic_ios<char, std::char_traits<char> ?>::clear\(std::_Ios_Iostate\)$')
def _(E, st, a, ins):
    v = E.uns(st, a[1], 32)
    if not v.is_const():
        raise Unsupported('stream state')
    base, path, mode, pos = fs(E, st, a[0])
    setstate(E, st, a[0], v.cval())


@rx(r'^std::__basic_file<char>::is_open\(\) const$|^std::basic_filebuf<char, std::char_traits<char> ?>::is_open\(\) const$')
def _(E, st, a, ins):
    return T if fs(E, st, a[0])[1] is not None else FF


@rx(r'^std::basic_filebuf<char, std::char_traits<char> ?>::close\(\)$')
def _(E, st, a, ins):
    base, path, mode, pos = fs(E, st, a[0])
    if path is None:
        return NULL
    setfs(st, a[0], (base, None, 0, ZERO))
    return a[0]


@rx(r'^std::basic_filebuf<char, std::char_traits<char> ?>::open\(char const\*, std::_Ios_Openmode\)$')
def _(E, st, a, ins):
    base, path, mode, pos = fs(E, st, a[0])
    if path is not None:
        return NULL
    r = S.concrete(S.czrope(E, st, a[1]))
    if r is None or not a[2].is_const():
        raise Unsupported('file name')
    m = a[2].cval() & ~4
    name = ('file', r)
    if m & (APP | ATE):
        raise Unsupported('open mode')
    if m == IN or m == IN | OUT:
        if name not in st.ghost:
            return NULL
    elif m in (OUT, OUT | TRUNC, IN | OUT | TRUNC):
        st.ghost[name] = S.EMPTY
    else:
        return NULL
    setfs(st, a[0], (base, name, m, ZERO))
    return a[0]


def sentry(E, st, p):
    s = state(E, st, p)
    if s:
        setstate(E, st, p, s | FAIL)
        return False
    return True


@rx(r'^std::basic_istream<char, std::char_traits<char> ?>::read\(char\*, long\)$')
def _(E, st, a, ins):
    gcount(E, st, a[0], ZERO)
    if not sentry(E, st, a[0]):
        return a[0]
    base, path, mode, pos = fs(E, st, a[0])
    n = E.sig(st, a[2], 64)
    if path is None or not mode & IN:
        setstate(E, st, a[0], EOFB | FAIL)
        return a[0]
    r = st.ghost[path]
    L = S.rlen(r)
    if E.decide(st, le(n, ZERO)):
        return a[0]
    if E.decide(st, le(pos + n, L)):
        got, short = n, False
    else:
        short = True
        got = L - pos if E.decide(st, lt(pos, L)) else ZERO
    if got.d:
        o = E.new(st, ZERO, kind='str')
        st.mem[o].rope = S.sub(E, st, r, pos, got)
        E.memcpy(st, a[1], Ptr(o), got)
    setfs(st, a[0], (base, path, mode, pos + got))
    gcount(E, st, a[0], got)
    if short:
        setstate(E, st, a[0], EOFB | FAIL)
    return a[0]


def take(E, st, p, advance):
    gcount(E, st, p, ZERO)
    if not sentry(E, st, p):
        return C(-1)
    base, path, mode, pos = fs(E, st, p)
    if path is None or not mode & IN or not E.decide(st, lt(pos, S.rlen(st.ghost[path]))):
        setstate(E, st, p, EOFB | (FAIL if advance else 0))
        return C(-1)
    c = S.char_at(E, st, st.ghost[path], pos)
    if advance:
        gcount(E, st, p, C(1))
        setfs(st, p, (base, path, mode, pos + 1))
    return c


@rx(r'^std::basic_istream<char, std::char_traits<char> ?>::get\(\)$')
def _(E, st, a, ins):
    return take(E, st, a[0], True)


@rx(r'^std::basic_istream<char, std::char_traits<char> ?>::peek\(\)$')
def _(E, st, a, ins):
    return take(E, st, a[0], False)


@rx(r'^std::basic_istream<char, std::char_traits<char> ?>::seekg\(std::fpos<__mbstate_t>\)$')
def _(E, st, a, ins):
    setstate(E, st, a[0], state(E, st, a[0]) & ~EOFB)
    seek(E, st, a)
    return a[0]


@rx(r'^std::basic_ostream<char, std::char_traits<char> ?>::seekp\(std::fpos<__mbstate_t>\)$')
def _(E, st, a, ins):
    seek(E, st, a)
    return a[0]


def seek(E, st, a):
    if not sentry(E, st, a[0]):
        return
    base, path, mode, pos = fs(E, st, a[0])
    to = E.sig(st, a[1], 64)
    if path is None or E.decide(st, lt(to, ZERO)):
        setstate(E, st, a[0], FAIL)
        return
    setfs(st, a[0], (base, path, mode, to))


@rx(r'^std::basic_istream<char, std::char_traits<char> ?>::tellg\(\)$|^std::basic_ostream<char, std::char_traits<char> ?>::tellp\(\)$')
def _(E, st, a, ins):
    ok = sentry(E, st, a[0])
    base, path, mode, pos = fs(E, st, a[0])
    return Agg([pos if ok and path is not None else C(-1), ZERO])


@rx(r'^std::basic_ostream<char, std::char_traits<char> ?>::write\(char const\*, long\)$')
def _(E, st, a, ins):
    if not sentry(E, st, a[0]):
        return a[0]
    base, path, mode, pos = fs(E, st, a[0])
    n = E.sig(st, a[2], 64)
    if E.decide(st, le(n, ZERO)):
        return a[0]
    if path is None or not mode & OUT:
        setstate(E, st, a[0], BAD)
        return a[0]
    w = S.mem_rope(E, st, a[1], n)
    r = st.ghost[path]
    L = S.rlen(r)
    if E.decide(st, le(L, pos)):
        st.ghost[path] = S.cat(r, S.fill(ZERO, pos - L), w)
    else:
        h, t = S.split(E, st, r, pos)
        if E.decide(st, le(L, pos + n)):
            t = S.EMPTY
        else:
            _, t = S.split(E, st, t, n)
        st.ghost[path] = S.cat(h, w, t)
    setfs(st, a[0], (base, path, mode, pos + n))
    return a[0]


# ---- std::map nodes: a binary search tree (the balancing is not observable) -------------------
def ld(E, st, p, off):
    return E.load(st, p.add(off), SX.IR.PTR)


def sp(E, st, p, off, v):
    E.store(st, p.add(off), v, 8, 'p')


@rx(r'^std::_Rb_tree_insert_and_rebalance\(')
def _(E, st, a, ins):
    left, x, p, h = a
    left = E.to_bool(st, left)
    sp(E, st, x, 8, p)
    sp(E, st, x, 16, NULL)
    sp(E, st, x, 24, NULL)
    E.store(st, x, ONE, 4, 'i')
    if E.decide(st, left):
        if p == h:
            sp(E, st, h, 16, x)
            sp(E, st, h, 8, x)
            sp(E, st, h, 24, x)
        else:
            sp(E, st, p, 16, x)
            if ld(E, st, h, 16) == p:
                sp(E, st, h, 16, x)
    else:
        sp(E, st, p, 24, x)
        if ld(E, st, h, 24) == p:
            sp(E, st, h, 24, x)


def step(E, st, x, lo, hi):
    """in-order successor (lo=left 16, hi=right 24) or predecessor (swapped)"""
    r = ld(E, st, x, hi)
    if r.o is not None:
        while True:
            l = ld(E, st, r, lo)
            if l.o is None:
                return r
            r = l
    y = ld(E, st, x, 8)
    while ld(E, st, y, hi) == x:
        x, y = y, ld(E, st, y, 8)
    return y if ld(E, st, x, hi) != y else x


@rx(r'^std::_Rb_tree_increment\(')
def _(E, st, a, ins):
    return step(E, st, a[0], 16, 24)


@rx(r'^std::_Rb_tree_decrement\(')
def _(E, st, a, ins):
    # the header is recognised by its colour (red) and being its own grandparent; real nodes are coloured black here
    x = a[0]
    c = E.load(st, x, SX.IR.IntTy(32))
    if isinstance(c, Poly) and c.is_const() and c.cval() == 0 and ld(E, st, ld(E, st, x, 8), 8) == x:
        return ld(E, st, x, 24)
    return step(E, st, x, 24, 16)
