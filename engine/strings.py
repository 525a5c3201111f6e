"""Assumed contracts of std::string, its algorithms and conversions, over ropes.

A std::string object holds, at its address, a pointer to a buffer object of kind 'str' whose contents is a rope:
  ('c', chars)                 literal characters (each a term 0..255)
  ('s', arr, off, len)         a slice of a symbolic array
  ('f', ch, n)                 n times the character ch
  ('m', var, lo, n, es, chars) elements lo .. lo+n-1 of a comprehension, es characters each (terms in var)
  ('w', var, lo, n, es, rope)  the same with a rope of es characters for each element
Lengths are terms, so nothing here is bounded."""
import re, hashlib
import alg
from alg import *
import symex as SX
from symex import *
import models
from models import exact, rx, demangle, throw_std, cstr

SPACE = frozenset({9, 10, 11, 12, 13, 32})
DEC = frozenset(b'-0123456789')
NAT = frozenset(range(48, 58))
FLT = frozenset(b'-+.0123456789einfa')
NPOS = C((1 << 64) - 1)
STRN = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
QV = alg.atom('var', (), 'I', None, None, 'k!q')
QP = Poly.of(QV)
EMPTY = ()


# ---- ropes ---------------------------------------------------------------------------------
def plen(p):
    k = p[0]
    if k == 'c':
        return C(len(p[1]))
    if k == 's':
        return p[3]
    if k == 'f':
        return p[2]
    return p[3] * p[4]


def rlen(r):
    n = ZERO
    for p in r:
        n = n + plen(p)
    return n


def cat(*rs):
    out = []
    for r in rs:
        for p in r:
            L = plen(p)
            if L.is_const() and L.cval() <= 0:
                continue
            if out:
                q = out[-1]
                if q[0] == 'c' == p[0]:
                    out[-1] = ('c', q[1] + p[1])
                    continue
                if q[0] == 's' == p[0] and q[1] == p[1] and q[2] + q[3] == p[2]:
                    out[-1] = ('s', q[1], q[2], q[3] + p[3])
                    continue
                if q[0] == 'f' == p[0] and q[1] == p[1]:
                    out[-1] = ('f', q[1], q[2] + p[2])
                    continue
                if q[0] in 'mw' and q[0] == p[0] and q[1] is p[1] and q[4:] == p[4:] and q[2] + q[3] == p[2]:
                    out[-1] = (q[0], q[1], q[2], q[3] + p[3], q[4], q[5])
                    continue
            out.append(p)
    return tuple(out)


def lit(b):
    if isinstance(b, str):
        b = b.encode('latin1')
    return (('c', tuple(C(x) for x in b)),) if b else EMPTY


def fill(ch, n):
    if n.is_const() and n.cval() <= 0:
        return EMPTY
    return (('f', ch, n),)


def concrete(r):
    """bytes when fully concrete"""
    out = bytearray()
    for p in r:
        if p[0] == 'w':
            return None
        if p[0] == 'c':
            if not all(c.is_const() for c in p[1]):
                return None
            out += bytes(c.cval() for c in p[1])
        elif p[0] == 'f' and p[1].is_const() and p[2].is_const() and p[2].cval() < 100000:
            out += bytes([p[1].cval()]) * p[2].cval()
        else:
            return None
    return bytes(out)


def sel(E, arr, i):
    a = E.alpha.get(arr)
    if a:
        if a is DEC and i.is_const() and i.cval() > 0:
            return alg.select(arr, i, 48, 57)
        return alg.select(arr, i, min(a), max(a))
    return alg.select(arr, i)


def psplit(E, st, p, k):
    """piece split at k (0 <= k <= len)"""
    if not k.d:
        return EMPTY, (p,)
    kind = p[0]
    if kind == 'c':
        if not k.is_const():
            for j in range(len(p[1]) + 1):
                if E.decide(st, eq(k, C(j))):
                    k = C(j)
                    break
            else:
                raise PathEnd()
        k = k.cval()
        return (('c', p[1][:k]),) if k else EMPTY, (('c', p[1][k:]),) if k < len(p[1]) else EMPTY
    if kind == 's':
        return (('s', p[1], p[2], k),), (('s', p[1], p[2] + k, p[3] - k),)
    if kind == 'f':
        return (('f', p[1], k),), (('f', p[1], p[2] - k),)
    _, var, lo, n, es, ch = p
    if es == 1:
        i, j = k, 0
    else:
        i, j = idx_split(E, st, k, es)
    if kind == 'w':
        if j == 0:
            return wpiece(E, st, var, lo, i, es, ch), wpiece(E, st, var, lo + i, n - i, es, ch)
        x, y = split(E, st, E.sub_rope(st, ch, Subst({var.id: lo + i})), C(j))
        return cat(wpiece(E, st, var, lo, i, es, ch), x), cat(y, wpiece(E, st, var, lo + i + 1, n - i - 1, es, ch))
    if j == 0:
        return (('m', var, lo, i, es, ch),), (('m', var, lo + i, n - i, es, ch),)
    sub = Subst({var.id: lo + i})
    el = tuple(sub.poly(c) for c in ch)
    return ((('m', var, lo, i, es, ch), ('c', el[:j])),
            (('c', el[j:]), ('m', var, lo + i + 1, n - i - 1, es, ch)))


def wpiece(E, st, var, lo, n, es, r):
    if not n.d:
        return EMPTY
    if n.is_const() and n.cval() == 1:
        r = E.sub_rope(st, r, Subst({var.id: lo}))
        revive(E, st, r)
        return r
    return (('w', var, lo, n, es, r),)


def revive(E, st, r):
    """what is known about the searches (scan, rscan) whose results occur in the rope"""
    if not E.scans:
        return
    seen = set()

    def poly(x):
        for m in x.d:
            for a, _ in m:
                if a not in seen:
                    seen.add(a)
                    at = alg._by_id[a]
                    for y in at.args:
                        if isinstance(y, Poly):
                            poly(y)
                    if at.kind == 'fn' and at.name in E.scans:
                        E.scans[at.name](st, *at.args)
    for p in r:
        for x in p[1:]:
            if isinstance(x, Poly):
                poly(x)


def idx_split(E, st, k, es):
    """k = es*i + j with constant j (forks over j when it must)"""
    a, b = {}, {}
    for m, c in k.d.items():
        if m and c % es == 0:
            a[m] = c // es
        elif not m:
            a[m] = c // es
            if c % es:
                b[m] = c % es
        else:
            b[m] = c
    A, B = Poly({m: c for m, c in a.items() if c}), Poly(b)
    if B.is_const():
        return A, B.cval()
    for j in range(es):
        if E.decide(st, eq(imod(B, es), C(j))):
            return A + idiv(B, es), j
    raise PathEnd()


def split(E, st, r, pos):
    """(left, right) of a rope at pos, 0 <= pos <= length"""
    left = []
    r = list(r)
    rem = pos
    i = 0
    while i < len(r):
        if not rem.d:
            break
        p = r[i]
        L = plen(p)
        if rem == L:
            left.append(p)
            i += 1
            rem = ZERO
            break
        w = E.decided(st, le(L, rem))
        if w is None and not (p[0] in 'sw' and E.decided(st, le(rem, L)) is True):
            w = E.decide(st, le(L, rem))
        if w:
            left.append(p)
            rem = rem - L
            i += 1
            continue
        a, b = psplit(E, st, p, rem)
        left.extend(a)
        return cat(left), cat(b, r[i + 1:])
    return cat(left), cat(r[i:])


def sub(E, st, r, pos, n):
    _, b = split(E, st, r, pos)
    a, _ = split(E, st, b, n)
    return a


def pchar(E, st, p, k):
    kind = p[0]
    if kind == 'c':
        if k.is_const():
            return p[1][k.cval()]
        if len(set(p[1])) == 1:
            return p[1][0]
        for j in range(len(p[1])):
            if E.decide(st, eq(k, C(j))):
                return p[1][j]
        raise PathEnd()
    if kind == 's':
        return sel(E, p[1], p[2] + k)
    if kind == 'f':
        return p[1]
    _, var, lo, n, es, ch = p
    i, j = (k, 0) if es == 1 else idx_split(E, st, k, es)
    if kind == 'w':
        return char_at(E, st, wpiece(E, st, var, lo + i, ONE, es, ch), C(j))
    return Subst({var.id: lo + i}).poly(ch[j])


def char_at(E, st, r, off):
    rem = off
    for p in r:
        L = plen(p)
        if E.decide(st, lt(rem, L)):
            return pchar(E, st, p, rem)
        rem = rem - L
    return ZERO if E.decide(st, eq0(rem)) else None


def in_set(ch, S):
    if ch.is_const():
        return T if ch.cval() in S else FF
    out, xs = [], sorted(S)
    i = 0
    while i < len(xs):
        j = i
        while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
            j += 1
        out.append(eq(ch, C(xs[i])) if i == j else f_and(le(C(xs[i]), ch), le(ch, C(xs[j]))))
        i = j + 1
    return f_or(*out) if out else FF


def forall(body, pats):
    return F('forall', QV, body, tuple(pats))


def rng(lo, hi, body):
    """for all QP in [lo, hi): body"""
    return fimp(f_and(le(lo, QP), lt(QP, hi)), body)


def chunk_eq(E, st, p, q, L):
    """formula: pieces p and q (both of length L) are equal"""
    if p == q:
        return T
    if 'w' in (p[0], q[0]):
        raise Unsupported('comparison of rows')
    for a, b in ((p, q), (q, p)):
        if a[0] == 'c':
            if b[0] == 'f':
                return f_and(*[eq(c, b[1]) for c in a[1]])
            return f_and(*[eq(c, pchar(E, st, b, C(j))) for j, c in enumerate(a[1])])
    if p[0] == 'f' and q[0] == 'f':
        return eq(p[1], q[1])
    for a, b in ((p, q), (q, p)):
        if a[0] == 's' and a[1] in E.tagval:
            x = E.tagval[a[1]]
            whole = not a[2].d and (a[3] == x[1] or E.decided(st, eq(a[3], x[1])) is True)
            if b[0] == 'f' and E.alpha.get(a[1]) and b[1].is_const() and b[1].cval() not in E.alpha[a[1]]:
                return eq0(L)
            if b[0] == 's' and b[1] in E.tagval and whole and not b[2].d and (b[3] == E.tagval[b[1]][1] or E.decided(st, eq(b[3], E.tagval[b[1]][1])) is True) and x[2] == E.tagval[b[1]][2] == 'dec':
                return eq(x[0], E.tagval[b[1]][0])
            if b[0] == 's' and a[1] == b[1] and a[2] == b[2]:
                return T
    if p[0] == 's' and q[0] == 's' and p[1] == q[1] and p[2] == q[2]:
        return T
    if L.is_const() and L.cval() <= 16:
        return f_and(*[eq(pchar(E, st, p, C(j)), pchar(E, st, q, C(j))) for j in range(L.cval())])
    if p[0] == 'm' and q[0] == 'm' and p[4] == q[4]:
        A, B = Subst({p[1].id: p[2] + QP}), Subst({q[1].id: q[2] + QP})
        return forall(rng(ZERO, p[3], f_and(*[eq(A.poly(x), B.poly(y)) for x, y in zip(p[5], q[5])])), ())
    for a, b in ((p, q), (q, p)):
        if a[0] == 'm':
            es = a[4]
            A = Subst({a[1].id: a[2] + QP})
            return forall(rng(ZERO, a[3], f_and(*[eq(A.poly(x), pchar(E, st, b, QP * es + j)) for j, x in enumerate(a[5])])), ())
    for a, b in ((p, q), (q, p)):
        if a[0] == 's':
            at = alg.select(a[1], QP)
            if b[0] == 'f':
                return forall(rng(a[2], a[2] + L, eq(at, b[1])), (at,))
            bt = alg.select(b[1], QP - a[2] + b[2])
            f1 = forall(rng(a[2], a[2] + L, eq(at, bt)), (at,))
            return f1
    raise Unsupported('rope comparison')


def rope_eq(E, st, a, b):
    """formula for a == b; forks on the lengths it has to know"""
    if a == b:
        return T
    ca, cb = concrete(a), concrete(b)
    if ca is not None and cb is not None:
        return T if ca == cb else FF
    la, lb = rlen(a), rlen(b)
    if la != lb and not E.decide(st, eq(la, lb)):
        return FF
    if any(p[0] == 'w' for p in a + b):
        a, b = [cat(*[wpiece(E, st, p[1], p[2], ONE, p[4], p[5]) if p[0] == 'w' and E.decided(st, eq(p[3], ONE)) is True else (p,) for p in r]) for r in (a, b)]
    a, b = list(a), list(b)
    # strip what is identical
    while a and b and a[0] == b[0]:
        a.pop(0)
        b.pop(0)
    while a and b and a[-1] == b[-1]:
        a.pop()
        b.pop()
    out = []
    while a and b:
        p, q = a.pop(0), b.pop(0)
        lp, lq = plen(p), plen(q)
        if lp != lq:
            if not a and not b:
                if E.decided(st, eq(lp, lq)) is not True:
                    raise Unsupported('rope alignment')
            elif E.decide(st, eq(lp, lq)):
                pass
            elif E.decide(st, le(lp, lq)):
                x, y = psplit(E, st, q, lp)
                b[:0] = y
                if len(x) > 1:
                    b[:0] = x
                    b_ = b.pop(0)
                    a.insert(0, p)
                    b.insert(0, b_)
                    if plen(b_) == lp:
                        raise Unsupported('rope alignment')
                    continue
                q = x[0] if x else None
                lq = lp
            else:
                x, y = psplit(E, st, p, lq)
                a[:0] = y
                if len(x) > 1:
                    a[:0] = x
                    b.insert(0, q)
                    continue
                p = x[0] if x else None
        if p is None or q is None:
            continue
        if lp.is_const() and lp.cval() == 0:
            continue
        f = chunk_eq(E, st, p, q, lp if lp == lq else lq)
        if f.k == 'false':
            if E.decide(st, lt(ZERO, lp)):
                return FF
            continue
        out.append(f)
    for p in a + b:
        # the lengths are equal, so what is left over is empty
        pass
    return f_and(*out) if out else T


def key_of(E, x):
    return E.keys.setdefault(x, len(E.keys))


def scan(E, st, p, S, inside):
    """first index in slice p whose character is in S (inside) / not in S; a term r with 0 <= r <= len"""
    _, arr, off, n = p
    al = E.alpha.get(arr)
    if al:
        hit = al & S if inside else al - S
        if not hit:
            return n
        if hit == al:
            return ZERO
    nm = 'scan|%s|%d' % (arr, key_of(E, (S, inside)))
    E.scans.setdefault(nm, lambda st, o, n: scan(E, st, ('s', arr, o, n), S, inside))
    r = fn(nm, [off, n], 'I', 0, None)
    st.assume(le(r, n))
    t = in_set(sel(E, arr, off + r), S)
    st.assume(f_or(le(n, r), t if inside else fnot(t)))
    at = alg.select(arr, QP)
    t = in_set(at, S)
    st.assume(forall(rng(off, off + r, fnot(t) if inside else t), (at,)))
    return r


def rscan(E, st, p, S):
    """number of characters of slice p kept when trailing characters in S are removed"""
    _, arr, off, n = p
    al = E.alpha.get(arr)
    if al and not (al & S):
        return n
    nm = 'rscan|%s|%d' % (arr, key_of(E, (S, 'r')))
    E.scans.setdefault(nm, lambda st, o, n: rscan(E, st, ('s', arr, o, n), S))
    r = fn(nm, [off, n], 'I', 0, None)
    st.assume(le(r, n))
    st.assume(f_or(le(r, ZERO), fnot(in_set(sel(E, arr, off + r - 1), S))))
    at = alg.select(arr, QP)
    st.assume(forall(rng(off + r, off + n, in_set(at, S)), (at,)))
    return r


def find(E, st, r, S, inside=True):
    """index of the first character in S / not in S, or None"""
    acc = ZERO
    for p in r:
        L = plen(p)
        if p[0] == 'c':
            for j, c in enumerate(p[1]):
                if E.decide(st, in_set(c, S) if inside else fnot(in_set(c, S))):
                    return acc + j
        elif p[0] == 'f':
            if E.decide(st, lt(ZERO, L)) and E.decide(st, in_set(p[1], S) if inside else fnot(in_set(p[1], S))):
                return acc
        elif p[0] == 's':
            k = scan(E, st, p, S, inside)
            if E.decide(st, lt(k, L)):
                return acc + k
        else:
            raise Unsupported('search in a comprehension')
        acc = acc + L
    return None


def ltrim(E, st, r, S):
    r = list(r)
    while r:
        p = r[0]
        L = plen(p)
        if p[0] == 'c':
            for j, c in enumerate(p[1]):
                if not E.decide(st, in_set(c, S)):
                    r[0] = ('c', p[1][j:])
                    return tuple(r)
        elif p[0] == 'f':
            if E.decide(st, lt(ZERO, L)) and not E.decide(st, in_set(p[1], S)):
                return tuple(r)
        elif p[0] == 's':
            k = scan(E, st, p, S, False)
            if len(r) == 1 and k != L and k.d:
                return (('s', p[1], p[2] + k, L - k),)
            if k != L:
                if not E.decide(st, eq(k, L)):
                    if not E.decide(st, eq0(k)):
                        r[0] = ('s', p[1], p[2] + k, L - k)
                    return tuple(r)
        else:
            raise Unsupported('trim of a comprehension')
        r.pop(0)
    return EMPTY


def rtrim(E, st, r, S):
    r = list(r)
    while r:
        p = r[-1]
        L = plen(p)
        if p[0] == 'c':
            for j in range(len(p[1]) - 1, -1, -1):
                if not E.decide(st, in_set(p[1][j], S)):
                    r[-1] = ('c', p[1][:j + 1])
                    return tuple(r)
        elif p[0] == 'f':
            if E.decide(st, lt(ZERO, L)) and not E.decide(st, in_set(p[1], S)):
                return tuple(r)
        elif p[0] == 's':
            k = rscan(E, st, p, S)
            if len(r) == 1 and k != L and k.d:
                return (('s', p[1], p[2], k),)
            if k == L and E.decide(st, lt(ZERO, L)):
                return tuple(r)
            if not E.decide(st, eq0(k)):
                if not E.decide(st, eq(k, L)):
                    r[-1] = ('s', p[1], p[2], k)
                return tuple(r)
        else:
            raise Unsupported('trim of a comprehension')
        r.pop()
    return EMPTY


def trim(E, st, r, S):
    return rtrim(E, st, ltrim(E, st, r, S), S)


# ---- string objects -------------------------------------------------------------------------
def buf(E, st, p):
    """object id of the buffer of the string at p"""
    v = E.load(st, p, SX.IR.PTR)
    if not isinstance(v, Ptr) or v.o is None or st.mem[v.o].kind != 'str':
        raise Unsupported('not a string object')
    return v.o


def rope(E, st, p):
    return st.mem[buf(E, st, p)].rope


def mk(E, st, p, r):
    """construct a string at p"""
    o = E.new(st, ZERO, kind='str')
    st.mem[o].rope = r
    E.store(st, p, Ptr(o), 8, 'p')
    return None


def setr_(E, st, p, r):
    st.w(buf(E, st, p)).rope = r


def size_arg(E, st, n):
    """an unsigned size; values no string can have throw length_error"""
    n = E.uns(st, n, 64)
    if not E.decide(st, lt(n, C(1 << 62))):
        throw_std(E, st, '@_ZTISt12length_error')
    return n


def mem_rope(E, st, p, n):
    """the n bytes at p"""
    if not n.d:
        return EMPTY
    m = E.obj(st, p)
    if m.kind == 'str':
        r = m.rope
        return sub(E, st, r, p.off, n)
    if n.is_const():
        out = []
        for k in range(n.cval()):
            out.append(E.uns(st, byte_load(E, st, p.add(k)), 8))
        return (('c', tuple(out)),)
    if isinstance(m.init, tuple) and m.init[0] == 'arr' and not m.cells and not m.ups:
        return (('s', m.init[1], p.off, n),)
    for u in reversed(m.ups):
        if u.var is not None and u.base == p.off and not u.lo.d and u.span == u.stride and not u.objs and u.hi * u.stride == n:
            ch = []
            for d in range(u.stride):
                ch.append(byte_in_cells(E, st, u.cells, d))
            return (('m', u.var, ZERO, u.hi, u.stride, tuple(ch)),)
        break
    if not E.decide(st, lt(n, C(1 << 62))):
        raise Unsupported('memory range')
    raise Unsupported('string from memory of symbolic length')


def byte_in_cells(E, st, cells, d):
    for q, c in cells.items():
        if q <= d < q + c.n:
            v = c.v
            if c.t == 'f':
                v = E.bits_of(v, c.n * 8)
            if isinstance(v, F):
                v = ite(v, ONE, ZERO)
            if not isinstance(v, Poly):
                raise Unsupported('bytes of %r' % (v,))
            return E.byte_of(st, v, c.n * 8, d - q)
    raise Unsupported('hole in comprehension')


def byte_load(E, st, p):
    m = E.obj(st, p)
    o = E.coff(p)
    if o is not None and not m.ups:
        b = E.byte_at(st, m, o)
        if isinstance(b, Poly):
            return b
        if b is UNDEF:
            return fresh('undefbyte', 'I', 0, 255)
        return E.byte_val(st, b)
    if m.ups:
        for u in reversed(m.ups):
            if u.var is None:
                for q, c in u.cells.items():
                    d = p.off - u.base - q
                    if d.is_const() and 0 <= d.cval() < c.n:
                        v = c.v
                        if c.t == 'f':
                            v = E.bits_of(v, c.n * 8)
                        if c.t == 'z':
                            return ZERO
                        if isinstance(v, Poly):
                            return E.byte_of(st, v, c.n * 8, d.cval())
                break
            break
    v = E.load(st, p, SX.IR.IntTy(8))
    if isinstance(v, Poly):
        return v
    raise Unsupported('byte load')


def czrope(E, st, p):
    """the C string at p"""
    m = E.obj(st, p)
    if m.kind == 'str':
        _, r = split(E, st, m.rope, p.off)
        k = find(E, st, r, frozenset({0}))
        return r if k is None else split(E, st, r, k)[0]
    try:
        return lit(cstr(E, st, p))
    except Unsupported:
        out = []
        for j in range(4096):
            b = E.uns(st, byte_load(E, st, p.add(j)), 8)
            if E.decide(st, eq0(b)):
                return (('c', tuple(out)),) if out else EMPTY
            out.append(b)
        raise


def range_rope(E, st, b, e):
    """the characters between two iterators"""
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.o != e.o:
        raise Unsupported('iterator range')
    n = e.off - b.off
    if b.o is None:
        return EMPTY
    if not E.decide(st, le(ZERO, n)):
        throw_std(E, st, '@_ZTISt12length_error')
    return mem_rope(E, st, b, n)


def pos_n(E, st, r, pos, n):
    """check pos <= size (out_of_range otherwise) and clamp n"""
    L = rlen(r)
    pos = E.uns(st, pos, 64)
    if not E.decide(st, le(pos, L)):
        throw_std(E, st, '@_ZTISt12out_of_range')
    n = E.uns(st, n, 64)
    if n.d and E.decided(st, le(n, L - pos)) is not True and E.decide(st, le(L - pos, n)):
        n = L - pos
    return pos, n


def substr(E, st, r, pos, n):
    pos, n = pos_n(E, st, r, pos, n)
    return sub(E, st, r, pos, n)


def replace(E, st, p, pos, n, r2):
    r = rope(E, st, p)
    pos, n = pos_n(E, st, r, pos, n)
    a, b = split(E, st, r, pos)
    _, c = split(E, st, b, n)
    setr_(E, st, p, cat(a, r2, c))
    return p


def ch8(E, st, v):
    return E.uns(st, v, 8)


H = {}


def sg(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


@sg('basic_string()', 'basic_string(std::allocator<char> const&)')
def _(E, st, a, ins):
    return mk(E, st, a[0], EMPTY)


@sg('basic_string(STR const&)', 'basic_string(STR const&, std::allocator<char> const&)')
def _(E, st, a, ins):
    return mk(E, st, a[0], rope(E, st, a[1]))


@sg('basic_string(STR&&)', 'basic_string(STR&&, std::allocator<char> const&)')
def _(E, st, a, ins):
    mk(E, st, a[0], rope(E, st, a[1]))
    setr_(E, st, a[1], EMPTY)


@sg('basic_string(char const*, std::allocator<char> const&)', 'basic_string<void>(char const*, std::allocator<char> const&)', 'basic_string<std::allocator<char> >(char const*, std::allocator<char> const&)')
def _(E, st, a, ins):
    return mk(E, st, a[0], czrope(E, st, a[1]))


@sg('basic_string(char const*, unsigned long, std::allocator<char> const&)')
def _(E, st, a, ins):
    return mk(E, st, a[0], mem_rope(E, st, a[1], size_arg(E, st, a[2])))


@sg('basic_string(unsigned long, char, std::allocator<char> const&)', 'basic_string<std::allocator<char> >(unsigned long, char, std::allocator<char> const&)', 'basic_string<void>(unsigned long, char, std::allocator<char> const&)')
def _(E, st, a, ins):
    return mk(E, st, a[0], fill(ch8(E, st, a[2]), size_arg(E, st, a[1])))


@sg('basic_string(STR const&, unsigned long)')
def _(E, st, a, ins):
    return mk(E, st, a[0], substr(E, st, rope(E, st, a[1]), a[2], NPOS))


@sg('basic_string(STR const&, unsigned long, unsigned long)', 'basic_string(STR const&, unsigned long, std::allocator<char> const&)')
def _(E, st, a, ins):
    n = a[3] if isinstance(a[3], Poly) else NPOS
    return mk(E, st, a[0], substr(E, st, rope(E, st, a[1]), a[2], n))


@sg('basic_string(std::initializer_list<char>, std::allocator<char> const&)')
def _(E, st, a, ins):
    return mk(E, st, a[0], mem_rope(E, st, a[1], size_arg(E, st, a[2])))


def _range_ctor(E, st, a, ins):
    return mk(E, st, a[0], range_rope(E, st, a[1], a[2]))


@sg('~basic_string()')
def _(E, st, a, ins):
    st.kill(buf(E, st, a[0]))


@sg('reserve(unsigned long)', 'reserve()', 'shrink_to_fit()')
def _(E, st, a, ins):
    return None


@sg('size() const', 'length() const')
def _(E, st, a, ins):
    return rlen(rope(E, st, a[0]))


@sg('capacity() const')
def _(E, st, a, ins):
    n = fresh('capacity', 'I', 15, (1 << 62))
    st.assume(le(rlen(rope(E, st, a[0])), n))
    return n


@sg('max_size() const')
def _(E, st, a, ins):
    return C((1 << 62))


@sg('empty() const')
def _(E, st, a, ins):
    return eq0(rlen(rope(E, st, a[0])))


@sg('begin()', 'begin() const', 'cbegin() const', 'c_str() const', 'data() const', 'data()')
def _(E, st, a, ins):
    return Ptr(buf(E, st, a[0]), ZERO)


@sg('end()', 'end() const', 'cend() const')
def _(E, st, a, ins):
    return Ptr(buf(E, st, a[0]), rlen(rope(E, st, a[0])))


@sg('operator[](unsigned long)', 'operator[](unsigned long) const')
def _(E, st, a, ins):
    return Ptr(buf(E, st, a[0]), E.uns(st, a[1], 64))


@sg('at(unsigned long)', 'at(unsigned long) const')
def _(E, st, a, ins):
    i = E.uns(st, a[1], 64)
    if not E.decide(st, lt(i, rlen(rope(E, st, a[0])))):
        throw_std(E, st, '@_ZTISt12out_of_range')
    return Ptr(buf(E, st, a[0]), i)


@sg('front()', 'front() const')
def _(E, st, a, ins):
    return Ptr(buf(E, st, a[0]), ZERO)


@sg('back()', 'back() const')
def _(E, st, a, ins):
    return Ptr(buf(E, st, a[0]), rlen(rope(E, st, a[0])) - 1)


@sg('clear()')
def _(E, st, a, ins):
    setr_(E, st, a[0], EMPTY)


@sg('resize(unsigned long)', 'resize(unsigned long, char)')
def _(E, st, a, ins):
    r = rope(E, st, a[0])
    n = size_arg(E, st, a[1])
    L = rlen(r)
    if E.decide(st, le(n, L)):
        setr_(E, st, a[0], split(E, st, r, n)[0])
    else:
        setr_(E, st, a[0], cat(r, fill(ch8(E, st, a[2]) if len(a) > 2 else ZERO, n - L)))


@sg('push_back(char)')
def _(E, st, a, ins):
    setr_(E, st, a[0], cat(rope(E, st, a[0]), (('c', (ch8(E, st, a[1]),)),)))


@sg('pop_back()')
def _(E, st, a, ins):
    r = rope(E, st, a[0])
    setr_(E, st, a[0], split(E, st, r, rlen(r) - 1)[0])


@sg('operator+=(char)')
def _(E, st, a, ins):
    setr_(E, st, a[0], cat(rope(E, st, a[0]), (('c', (ch8(E, st, a[1]),)),)))
    return a[0]


@sg('operator+=(STR const&)', 'append(STR const&)')
def _(E, st, a, ins):
    setr_(E, st, a[0], cat(rope(E, st, a[0]), rope(E, st, a[1])))
    return a[0]


@sg('operator+=(char const*)', 'append(char const*)')
def _(E, st, a, ins):
    setr_(E, st, a[0], cat(rope(E, st, a[0]), czrope(E, st, a[1])))
    return a[0]


@sg('append(char const*, unsigned long)')
def _(E, st, a, ins):
    setr_(E, st, a[0], cat(rope(E, st, a[0]), mem_rope(E, st, a[1], size_arg(E, st, a[2]))))
    return a[0]


@sg('append(unsigned long, char)')
def _(E, st, a, ins):
    setr_(E, st, a[0], cat(rope(E, st, a[0]), fill(ch8(E, st, a[2]), size_arg(E, st, a[1]))))
    return a[0]


@sg('append(STR const&, unsigned long, unsigned long)')
def _(E, st, a, ins):
    setr_(E, st, a[0], cat(rope(E, st, a[0]), substr(E, st, rope(E, st, a[1]), a[2], a[3])))
    return a[0]


def _range_append(E, st, a, ins):
    setr_(E, st, a[0], cat(rope(E, st, a[0]), range_rope(E, st, a[1], a[2])))
    return a[0]


@sg('assign(STR const&)', 'operator=(STR const&)')
def _(E, st, a, ins):
    setr_(E, st, a[0], rope(E, st, a[1]))
    return a[0]


@sg('assign(STR&&)', 'operator=(STR&&)')
def _(E, st, a, ins):
    r = rope(E, st, a[1])
    if buf(E, st, a[0]) != buf(E, st, a[1]):
        setr_(E, st, a[1], EMPTY)
    setr_(E, st, a[0], r)
    return a[0]


@sg('assign(char const*)', 'operator=(char const*)')
def _(E, st, a, ins):
    setr_(E, st, a[0], czrope(E, st, a[1]))
    return a[0]


@sg('operator=(char)')
def _(E, st, a, ins):
    setr_(E, st, a[0], (('c', (ch8(E, st, a[1]),)),))
    return a[0]


@sg('assign(char const*, unsigned long)')
def _(E, st, a, ins):
    setr_(E, st, a[0], mem_rope(E, st, a[1], size_arg(E, st, a[2])))
    return a[0]


@sg('assign(unsigned long, char)')
def _(E, st, a, ins):
    setr_(E, st, a[0], fill(ch8(E, st, a[2]), size_arg(E, st, a[1])))
    return a[0]


@sg('assign(STR const&, unsigned long, unsigned long)')
def _(E, st, a, ins):
    setr_(E, st, a[0], substr(E, st, rope(E, st, a[1]), a[2], a[3]))
    return a[0]


def _range_assign(E, st, a, ins):
    setr_(E, st, a[0], range_rope(E, st, a[1], a[2]))
    return a[0]


@sg('insert(unsigned long, STR const&)')
def _(E, st, a, ins):
    return replace(E, st, a[0], a[1], ZERO, rope(E, st, a[2]))


@sg('insert(unsigned long, char const*)')
def _(E, st, a, ins):
    return replace(E, st, a[0], a[1], ZERO, czrope(E, st, a[2]))


@sg('insert(unsigned long, unsigned long, char)')
def _(E, st, a, ins):
    return replace(E, st, a[0], a[1], ZERO, fill(ch8(E, st, a[3]), size_arg(E, st, a[2])))


@sg('replace(unsigned long, unsigned long, STR const&)')
def _(E, st, a, ins):
    return replace(E, st, a[0], a[1], a[2], rope(E, st, a[3]))


@sg('replace(unsigned long, unsigned long, char const*)')
def _(E, st, a, ins):
    return replace(E, st, a[0], a[1], a[2], czrope(E, st, a[3]))


@sg('replace(unsigned long, unsigned long, char const*, unsigned long)')
def _(E, st, a, ins):
    return replace(E, st, a[0], a[1], a[2], mem_rope(E, st, a[3], size_arg(E, st, a[4])))


@sg('replace(unsigned long, unsigned long, unsigned long, char)')
def _(E, st, a, ins):
    return replace(E, st, a[0], a[1], a[2], fill(ch8(E, st, a[4]), size_arg(E, st, a[3])))


def _range_replace(E, st, a, ins):
    b, e = a[1], a[2]
    return replace(E, st, a[0], b.off, e.off - b.off, range_rope(E, st, a[3], a[4]))


@sg('erase(unsigned long, unsigned long)')
def _(E, st, a, ins):
    return replace(E, st, a[0], a[1], a[2], EMPTY)


def _range_erase(E, st, a, ins):
    replace(E, st, a[0], a[1].off, a[2].off - a[1].off, EMPTY)
    return a[1]


def _pos_erase(E, st, a, ins):
    replace(E, st, a[0], a[1].off, ONE, EMPTY)
    return a[1]


@sg('substr(unsigned long, unsigned long) const')
def _(E, st, a, ins):
    return mk(E, st, a[0], substr(E, st, rope(E, st, a[1]), a[2], a[3]))


@sg('swap(STR&)')
def _(E, st, a, ins):
    x, y = rope(E, st, a[0]), rope(E, st, a[1])
    setr_(E, st, a[0], y)
    setr_(E, st, a[1], x)


def _find_in(E, st, r, pos, S, inside):
    L = rlen(r)
    pos = E.uns(st, pos, 64)
    if not E.decide(st, le(pos, L)):
        return NPOS
    k = find(E, st, split(E, st, r, pos)[1], S, inside)
    return NPOS if k is None else pos + k


def cset(E, st, v):
    v = ch8(E, st, v)
    if not v.is_const():
        raise Unsupported('search for a symbolic character')
    return frozenset({v.cval()})


def zset(E, st, p):
    b = concrete(czrope(E, st, p))
    if b is None:
        raise Unsupported('symbolic character set')
    return frozenset(b)


@sg('find(char, unsigned long) const', 'find_first_of(char, unsigned long) const')
def _(E, st, a, ins):
    return _find_in(E, st, rope(E, st, a[0]), a[2], cset(E, st, a[1]), True)


@sg('find_first_not_of(char, unsigned long) const')
def _(E, st, a, ins):
    return _find_in(E, st, rope(E, st, a[0]), a[2], cset(E, st, a[1]), False)


@sg('find_first_of(char const*, unsigned long) const')
def _(E, st, a, ins):
    return _find_in(E, st, rope(E, st, a[0]), a[2], zset(E, st, a[1]), True)


@sg('find_first_not_of(char const*, unsigned long) const')
def _(E, st, a, ins):
    return _find_in(E, st, rope(E, st, a[0]), a[2], zset(E, st, a[1]), False)


def _last(E, st, r, pos, S):
    L = rlen(r)
    pos = E.uns(st, pos, 64)
    if not E.decide(st, le(L, pos + 1)):
        r = split(E, st, r, pos + 1)[0]
    k = rlen(rtrim(E, st, r, S))
    return NPOS if E.decide(st, eq0(k)) else k - 1


ALL = frozenset(range(256))


@sg('rfind(char, unsigned long) const', 'find_last_of(char, unsigned long) const')
def _(E, st, a, ins):
    return _last(E, st, rope(E, st, a[0]), a[2], ALL - cset(E, st, a[1]))


@sg('find_last_not_of(char, unsigned long) const')
def _(E, st, a, ins):
    return _last(E, st, rope(E, st, a[0]), a[2], cset(E, st, a[1]))


@sg('find_last_of(char const*, unsigned long) const')
def _(E, st, a, ins):
    return _last(E, st, rope(E, st, a[0]), a[2], ALL - zset(E, st, a[1]))


@sg('find_last_not_of(char const*, unsigned long) const')
def _(E, st, a, ins):
    return _last(E, st, rope(E, st, a[0]), a[2], zset(E, st, a[1]))


@sg('find(char const*, unsigned long) const')
def _(E, st, a, ins):
    return _find_str(E, st, rope(E, st, a[0]), czrope(E, st, a[1]), a[2])


@sg('find(STR const&, unsigned long) const')
def _(E, st, a, ins):
    return _find_str(E, st, rope(E, st, a[0]), rope(E, st, a[1]), a[2])


def _find_str(E, st, r, w, pos):
    b, x = concrete(w), concrete(r)
    if b is not None and x is not None and pos.is_const():
        k = x.find(b, pos.cval())
        return NPOS if k < 0 else C(k)
    if b is not None and len(b) == 1:
        return _find_in(E, st, r, pos, frozenset(b), True)
    raise Unsupported('search for a substring')


def compare(E, st, x, y):
    a, b = concrete(x), concrete(y)
    if a is not None and b is not None:
        return C((a > b) - (a < b))
    f = rope_eq(E, st, x, y)
    if E.decide(st, f):
        return ZERO
    st.notes.add('uf')
    k = fn('strcmp|%d' % key_of(E, (x, y)), [], 'I', -(1 << 31), (1 << 31) - 1)
    st.assume(fnot(eq0(k)))
    return k


@sg('compare(STR const&) const')
def _(E, st, a, ins):
    return compare(E, st, rope(E, st, a[0]), rope(E, st, a[1]))


@sg('compare(char const*) const')
def _(E, st, a, ins):
    return compare(E, st, rope(E, st, a[0]), czrope(E, st, a[1]))


@sg('compare(unsigned long, unsigned long, STR const&) const')
def _(E, st, a, ins):
    return compare(E, st, substr(E, st, rope(E, st, a[0]), a[1], a[2]), rope(E, st, a[3]))


@sg('compare(unsigned long, unsigned long, char const*) const')
def _(E, st, a, ins):
    return compare(E, st, substr(E, st, rope(E, st, a[0]), a[1], a[2]), czrope(E, st, a[3]))


@sg('get_allocator() const', '_M_get_allocator()', '_M_get_allocator() const')
def _(E, st, a, ins):
    return a[0]


IT = r'(?:char const\*|char\*|__gnu_cxx::__normal_iterator<char(?: const)?\*, (?:STR|std::vector<char, std::allocator<char> >) ?>|unsigned char(?: const)?\*|std::initializer_list<char>::const_iterator|__gnu_cxx::__normal_iterator<unsigned char(?: const)?\*, std::vector<unsigned char, std::allocator<unsigned char> > ?>)'
RANGE = [(re.compile(r'^basic_string(<.*>)?\(%s, %s, std::allocator<char> const&\)$' % (IT, IT)), _range_ctor),
         (re.compile(r'^append(<.*>)?\(%s, %s\)$' % (IT, IT)), _range_append),
         (re.compile(r'^assign(<.*>)?\(%s, %s\)$' % (IT, IT)), _range_assign),
         (re.compile(r'^replace(<.*>)?\(%s, %s, %s, %s\)$' % (IT, IT, IT, IT)), _range_replace),
         (re.compile(r'^erase\(%s, %s\)$' % (IT, IT)), _range_erase),
         (re.compile(r'^erase\(%s\)$' % IT), _pos_erase)]


def unsupported(name):
    def f(E, st, a, ins):
        raise Unsupported('no contract for ' + name[:160])
    return f


_MEM = re.compile(r'(?:^|[ &*])STR::((?:~?basic_string|_M_\w+|_S_\w+|\w+|operator\W{1,3})(?:<.*>)?\(.*)$')


def simplify(d):
    return d.replace(STRN, 'STR').replace('[abi:cxx11]', '').replace('std::basic_ostream<char, std::char_traits<char> >', 'std::ostream')


def string_member(d):
    """handler of a std::string member function (d simplified), or None"""
    if not d.startswith('STR::') and not re.match(r'^STR& STR::', d):
        return None
    n = re.sub(r'^STR& ', '', d)[5:]
    if n.startswith('_Alloc_hider'):
        return None
    h = H.get(n)
    if h:
        return h
    for r, f in RANGE:
        if r.match(n):
            return f
    n2 = re.sub(r'<[^()]*>\(', '(', n, 1)
    if n2 in H:
        return H[n2]
    return unsupported(d)


# ---- free functions -----------------------------------------------------------------------
OPS = {}
G = r'<char, std::char_traits<char>, std::allocator<char> ?>'


def one(E, st, p, t):
    """rope of an operand of type t"""
    if t.startswith('STR'):
        return rope(E, st, p)
    if t == 'char':
        return (('c', (ch8(E, st, p),)),)
    return czrope(E, st, p)


_PLUS = re.compile(r'^STR std::operator\+' + G + r'\((STR const&|STR&&|char const\*|char), (STR const&|STR&&|char const\*|char)\)$')
_CMP = re.compile(r'^(?:std::enable_if<.*>::__type|bool) std::operator(==|!=|<|>|<=|>=)\s?' + r'<char.*>\((STR const&|char const\*), (STR const&|char const\*)\)$')


def free_function(d):
    m = _PLUS.match(d)
    if m:
        t1, t2 = m.groups()

        def plus(E, st, a, ins):
            r = cat(one(E, st, a[1], t1), one(E, st, a[2], t2))
            return mk(E, st, a[0], r)
        return plus
    m = _CMP.match(d)
    if m:
        op, t1, t2 = m.groups()

        def cmp(E, st, a, ins):
            x, y = one(E, st, a[0], t1), one(E, st, a[1], t2)
            if op == '==':
                return rope_eq(E, st, x, y)
            if op == '!=':
                return fnot(rope_eq(E, st, x, y))
            return cmpf({'<': 'slt', '>': 'sgt', '<=': 'sle', '>=': 'sge'}[op], compare(E, st, x, y), ZERO)
        return cmp
    for r, f in FREE:
        m = r.search(d)
        if m:
            return (lambda f, m: lambda E, st, a, ins: f(E, st, a, ins, m))(f, m)
    return None


FREE = []


def free(pat):
    def d(f):
        FREE.append((re.compile(pat), f))
        return f
    return d


@exact('vp_str')
def vp_str(E, st, a, ins):
    n = models.cname(E, st, a[1])
    lo, hi = E.uns(st, a[2], 64), E.uns(st, a[3], 64)
    k = 0
    while any(i[0] == 'str' and i[2][0] == 'in_%s_%d' % (n, k) for i in st.inputs):
        k += 1
    arr = 'in_%s_%d' % (n, k)
    if lo == hi:
        L = lo
    else:
        L = Poly.of(alg.atom('var', (), 'I', bounds(lo, st.bnd)[0], bounds(hi, st.bnd)[1], 'len_' + arr))
        st.assume(le(lo, L))
        st.assume(le(L, hi))
    st.inputs.append(('str', n, (arr, L)))
    setr_(E, st, a[0], (('s', arr, ZERO, L),) if not (L.is_const() and L.cval() == 0) else EMPTY)


# trims
@free(r'^STR boost::algorithm::trim_copy<STR ?>\(STR const&, std::locale const&\)$')
def _(E, st, a, ins, m):
    mk(E, st, a[0], trim(E, st, rope(E, st, a[1]), SPACE))


@free(r'^STR boost::algorithm::trim_left_copy<STR ?>\(STR const&, std::locale const&\)$')
def _(E, st, a, ins, m):
    mk(E, st, a[0], ltrim(E, st, rope(E, st, a[1]), SPACE))


@free(r'^STR boost::algorithm::trim_right_copy<STR ?>\(STR const&, std::locale const&\)$')
def _(E, st, a, ins, m):
    mk(E, st, a[0], rtrim(E, st, rope(E, st, a[1]), SPACE))


@free(r'^void boost::algorithm::trim(_left|_right|)<STR ?>\(STR&, std::locale const&\)$')
def _(E, st, a, ins, m):
    f = {'_left': ltrim, '_right': rtrim, '': trim}[m.group(1)]
    setr_(E, st, a[0], f(E, st, rope(E, st, a[0]), SPACE))


def pred_set(E, st, ins):
    """the set of bytes accepted by the predicate passed to the call, by running the real predicate on all 256 of them"""
    name = ins.x['callee'][1]
    ops = E.mod.preds.get(name)
    if not ops or len(ops) != 1:
        raise Unsupported('predicate of ' + demangle(name[1:].strip('"'))[:100])
    op = ops[0]
    if op in E.predsets:
        return E.predsets[op]
    f = E.mod.funcs.get(op)
    if f is None:
        raise Unsupported('predicate was optimised away')
    S = set()
    for b in range(256):
        s2 = State()
        args = []
        for (t, n, at) in f.params:
            args.append(C(b - 256 if b > 127 else b) if t.k == 'int' else Ptr(E.new(s2, 8)))
        res = []
        old = E.do_return

        def ret(st_, v, stop, out, work):
            if len(st_.frames) == 1:
                res.append(v)
            return old(st_, v, stop, out, work)
        E.do_return = ret
        sv = (E.returns, set(E.reached), E.paths)
        try:
            E.enter(s2, f, args, None)
            E.explore([s2], None)
        finally:
            del E.do_return
            E.returns, E.reached, E.paths = sv
        if len(res) != 1:
            raise Unsupported('predicate is not a pure function of the character')
        v = res[0]
        if not isinstance(v, F):
            v = E.to_bool(s2, v)
        if v.k not in ('true', 'false'):
            raise Unsupported('predicate is not decided')
        if v.k == 'true':
            S.add(b)
    E.predsets[op] = frozenset(S)
    return E.predsets[op]


@free(r'^STR boost::algorithm::trim(_left|_right|)_copy_if<STR, .*>\(STR const&, ')
def _(E, st, a, ins, m):
    f = {'_left': ltrim, '_right': rtrim, '': trim}[m.group(1)]
    mk(E, st, a[0], f(E, st, rope(E, st, a[1]), pred_set(E, st, ins)))


@free(r'^void boost::algorithm::trim(_left|_right|)_if<STR, .*>\(STR&, ')
def _(E, st, a, ins, m):
    f = {'_left': ltrim, '_right': rtrim, '': trim}[m.group(1)]
    setr_(E, st, a[0], f(E, st, rope(E, st, a[0]), pred_set(E, st, ins)))


@free(r'^__gnu_cxx::__normal_iterator<char( const)?\*, STR ?> std::find<__gnu_cxx::__normal_iterator<char( const)?\*, STR ?>, char>\(')
def _(E, st, a, ins, m):
    c = E.load(st, a[2], SX.IR.IntTy(8))
    r = range_rope(E, st, a[0], a[1])
    k = find(E, st, r, cset(E, st, c))
    return a[1] if k is None else a[0].add(k)


@free(r'^__gnu_cxx::__normal_iterator<char( const)?\*, STR ?> std::find_if(_not)?<__gnu_cxx::__normal_iterator<char( const)?\*, STR ?>, .*>\(')
def _(E, st, a, ins, m):
    r = range_rope(E, st, a[0], a[1])
    k = find(E, st, r, pred_set(E, st, ins), not m.group(2))
    return a[1] if k is None else a[0].add(k)


@free(r'^bool std::(all|any|none)_of<__gnu_cxx::__normal_iterator<char( const)?\*, STR ?>, .*>\(')
def _(E, st, a, ins, m):
    r = range_rope(E, st, a[0], a[1])
    S = pred_set(E, st, ins)
    k = find(E, st, r, S, m.group(1) != 'all')
    return T if (k is None) == (m.group(1) != 'any') else FF


@exact('strchr')
def m_strchr(E, st, a, ins):
    r = czrope(E, st, a[0])
    c = E.uns(st, imod(a[1], 256) if not a[1].is_const() else C(a[1].cval() % 256), 8)
    b = concrete(r)
    if b is None:
        raise Unsupported('strchr')
    for j, x in enumerate(b + b'\0'):
        if E.decide(st, eq(c, C(x))):
            return a[0].add(j)
    return NULL


@exact('memchr')
def m_memchr(E, st, a, ins):
    r = mem_rope(E, st, a[0], E.uns(st, a[2], 64))
    b = concrete(r)
    c = E.uns(st, C(a[1].cval() % 256) if a[1].is_const() else imod(a[1], 256), 8)
    if b is not None and not c.is_const():
        for j, x in enumerate(b):
            if E.decide(st, eq(c, C(x))):
                return a[0].add(j)
        return NULL
    k = find(E, st, r, cset(E, st, a[1]))
    return NULL if k is None else a[0].add(k)


@exact('memcmp', 'bcmp')
def m_memcmp(E, st, a, ins):
    n = E.uns(st, a[2], 64)
    x, y = mem_rope(E, st, a[0], n), mem_rope(E, st, a[1], n)
    return compare(E, st, x, y)


@exact('strlen')
def m_strlen(E, st, a, ins):
    return rlen(czrope(E, st, a[0]))


# ---- numbers and text ----------------------------------------------------------------------
def to_text(E, st, x, kind='dec'):
    """decimal text of an integer / printed text of a floating value"""
    if kind == 'dec' and x.is_const():
        return lit(str(x.cval()))
    arr = E.tags.get((kind, x))
    if arr is None:
        arr = '%s!%d' % (kind, len(E.tags))
        E.tags[(kind, x)] = arr
        E.alpha[arr] = FLT if kind != 'dec' else NAT if (bounds(x, st.bnd)[0] or 0) >= 0 and bounds(x, st.bnd)[0] is not None else DEC
        n = fn(kind + 'len', [x], 'I', 1, 20 if kind == 'dec' else 13)
        E.tagval[arr] = (x, n, kind)
    n = E.tagval[arr][1]
    if kind == 'dec':
        lo, hi = bounds(x, st.bnd)
        if lo is not None and hi is not None:
            if 0 <= lo and len(str(lo)) == len(str(hi)):
                if hi < 10:
                    return (('c', (x + 48,)),)
                st.assume(eq(n, C(len(str(lo)))))
                n = C(len(str(lo)))
            else:
                st.assume(le(n, C(max(len(str(lo)), len(str(hi))))))
    return (('s', arr, ZERO, n),)


def dec_text(E, st, r):
    """the integer whose decimal text the rope is, or None"""
    if len(r) != 1:
        return None
    p = r[0]
    if p[0] == 's' and p[1] in E.tagval and E.tagval[p[1]][2] == 'dec' and (not p[2].d or E.decided(st, eq0(p[2])) is True):
        x, n, _ = E.tagval[p[1]]
        if p[3] == n or E.decided(st, eq(p[3], n)) is True:
            return x
    if p[0] == 'c' and len(p[1]) == 1 and E.decided(st, f_and(le(C(48), p[1][0]), le(p[1][0], C(57)))) is True:
        return p[1][0] - 48
    return None


@free(r'^std::(?:__cxx11::)?to_string\((\w[\w ]*)\)$')
def _(E, st, a, ins, m):
    t = m.group(1)
    if t in ('double', 'float', 'long double'):
        mk(E, st, a[0], to_text(E, st, E.real(a[1]), 'fix'))
        return
    w = 64 if 'long' in t else 32
    x = E.uns(st, a[1], w) if 'unsigned' in t else E.sig(st, a[1], w)
    mk(E, st, a[0], to_text(E, st, x))


WID = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
       'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False)}
BADLEX = '@_ZTIN5boost16bad_lexical_castE'


def ity(t):
    w, sgn = WID[t]
    return w, sgn, (-(1 << (w - 1)) if sgn else 0), ((1 << (w - 1)) - 1 if sgn else (1 << w) - 1)


def parse_int(E, st, r, t):
    """value of the text, or None when boost::lexical_cast rejects it"""
    w, sgn, lo, hi = ity(t)
    b = concrete(r)
    if b is not None:
        if not re.fullmatch(rb'[+-]?[0-9]+', b):
            return None
        x = C(int(b))
    elif dec_text(E, st, r) is not None:
        x = dec_text(E, st, r)
    else:
        st.notes.add('uf')
        k = key_of(E, ('lex', t, r))
        if not E.decide(st, f_and(lt(ZERO, rlen(r)), F('p', 'lexok%d' % k))):
            return None
        return fn('lexval%d' % k, [], 'I', lo, hi)
    if not sgn and not E.decide(st, le(ZERO, x)):
        if not E.decide(st, le(-x, C(hi))):
            return None
        return x + (1 << w)
    if not E.decide(st, f_and(le(C(lo), x), le(x, C(hi)))):
        return None
    return x


@free(r'^(int|unsigned int|long|unsigned long|long long|unsigned long long|short|unsigned short) boost::lexical_cast<\1, STR ?>\(STR const&\)$')
def _(E, st, a, ins, m):
    v = parse_int(E, st, rope(E, st, a[0]), m.group(1))
    if v is None:
        throw_std(E, st, BADLEX)
    return v


@free(r'^(char|unsigned char|signed char) boost::lexical_cast<\1, STR ?>\(STR const&\)$')
def _(E, st, a, ins, m):
    r = rope(E, st, a[0])
    if not E.decide(st, eq(rlen(r), ONE)):
        throw_std(E, st, BADLEX)
    return char_at(E, st, r, ZERO)


@free(r'^bool boost::lexical_cast<bool, STR ?>\(STR const&\)$')
def _(E, st, a, ins, m):
    b = concrete(rope(E, st, a[0]))
    if b is None:
        raise Unsupported('lexical_cast<bool>')
    if not re.fullmatch(rb'[+-]?0*[01]', b) or b == b'-1':
        throw_std(E, st, BADLEX)
    return T if b.endswith(b'1') else FF


@free(r'^(double|float) boost::lexical_cast<\1, STR ?>\(STR const&\)$')
def _(E, st, a, ins, m):
    r = rope(E, st, a[0])
    b = concrete(r)
    if b is not None:
        if not re.fullmatch(rb'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', b):
            if re.fullmatch(rb'[+-]?(nan|inf(inity)?)', b.lower()):
                raise Unsupported('special floating value')
            throw_std(E, st, BADLEX)
        return C(Q(b.decode()))
    x = dec_text(E, st, r)
    if x is not None:
        return x
    st.notes.add('uf')
    k = key_of(E, ('lex', m.group(1), r))
    if not E.decide(st, f_and(lt(ZERO, rlen(r)), F('p', 'lexok%d' % k))):
        throw_std(E, st, BADLEX)
    return fn('lexval%d' % k, [], 'R')


@free(r'^STR boost::lexical_cast<STR, ([\w ]+)>\(\1 const&\)$')
def _(E, st, a, ins, m):
    t = m.group(1)
    if t in WID:
        w, sgn, _, _ = ity(t)
        v = E.load(st, a[1], SX.IR.IntTy(w))
        return mk(E, st, a[0], to_text(E, st, E.sig(st, v, w) if sgn else E.uns(st, v, w)))
    if t in ('char', 'unsigned char', 'signed char'):
        return mk(E, st, a[0], (('c', (ch8(E, st, E.load(st, a[1], SX.IR.IntTy(8))),)),))
    raise Unsupported('lexical_cast<string>(%s)' % t)


@free(r'^STR boost::lexical_cast<STR, STR ?>\(STR const&\)$')
def _(E, st, a, ins, m):
    mk(E, st, a[0], rope(E, st, a[1]))


STOI = {'stoi': 'int', 'stol': 'long', 'stoll': 'long long', 'stoul': 'unsigned long', 'stoull': 'unsigned long long'}


@free(r'^std::(?:__cxx11::)?(stoi|stol|stoll|stoul|stoull)\(STR const&, unsigned long\*, int\)$')
def _(E, st, a, ins, m):
    r = rope(E, st, a[0])
    if not (isinstance(a[1], Ptr) and a[1].o is None and a[2].is_const() and a[2].cval() == 10):
        raise Unsupported('stoi with a position or a base')
    r2 = ltrim(E, st, r, SPACE)
    b = concrete(r2)
    if b is not None:
        mm = re.match(rb'[+-]?[0-9]+', b)
        if not mm:
            throw_std(E, st, '@_ZTISt16invalid_argument')
        r2 = lit(mm.group(0))
    elif r2 and r2[0][0] == 's' and r2[0][1] in E.tagval and len(r2) > 1:
        nx = r2[1]
        if nx[0] == 'c' and nx[1][0].is_const() and not 48 <= nx[1][0].cval() <= 57 or nx[0] == 'f' and nx[1].is_const() and not 48 <= nx[1].cval() <= 57:
            r2 = r2[:1]
    v = parse_int(E, st, r2, STOI[m.group(1)])
    if v is None:
        throw_std(E, st, '@_ZTISt12out_of_range' if concrete(r2) is not None or r2 and r2[0][0] == 's' and r2[0][1] in E.tagval else '@_ZTISt16invalid_argument')
    return v


# ---- string streams ------------------------------------------------------------------------
def ss(st, p):
    return ('ss', p.o)


def ss_put(E, st, p, r):
    k = ss(st, p)
    if k not in st.ghost:
        raise Unsupported('output stream')
    st.ghost[k] = cat(st.ghost[k], r)
    return p


SSN = r'std::__cxx11::basic_(?:o|)stringstream<char, std::char_traits<char>, std::allocator<char> >'


@free(SSN + r'::basic_\w+\((?:std::_Ios_Openmode)?\)$')
def _(E, st, a, ins, m):
    st.ghost[ss(st, a[0])] = EMPTY


@free(SSN + r'::~')
def _(E, st, a, ins, m):
    st.ghost.pop(ss(st, a[0]), None)


@free(SSN + r'::str\(\) const')
def _(E, st, a, ins, m):
    k = ss(st, a[1])
    if k not in st.ghost:
        raise Unsupported('string stream')
    mk(E, st, a[0], st.ghost[k])


@free(r'^std::ostream::operator<<\((int|unsigned int|long|unsigned long|long long|unsigned long long|short|unsigned short|double|float)\)$')
def _(E, st, a, ins, m):
    return ss_val(E, st, a, m.group(1))


@free(r'^std::ostream& std::ostream::_M_insert<(long|unsigned long|long long|unsigned long long|double)>\(')
def _(E, st, a, ins, m):
    return ss_val(E, st, a, m.group(1))


def ss_val(E, st, a, t):
    if t in ('double', 'float'):
        return ss_put(E, st, a[0], to_text(E, st, E.real(a[1]), 'flt'))
    w, sgn, _, _ = ity(t)
    x = E.sig(st, a[1], w) if sgn else E.uns(st, a[1], w)
    return ss_put(E, st, a[0], to_text(E, st, x))


@free(r'^std::(?:basic_)?ostream(?:<char, std::char_traits<char> ?>)?& std::operator<< ?<char, std::char_traits<char>, std::allocator<char> ?>\(.*, STR const&\)$')
def _(E, st, a, ins, m):
    return ss_put(E, st, a[0], rope(E, st, a[1]))


@free(r'^std::(?:basic_)?ostream(?:<char, std::char_traits<char> ?>)?& std::operator<< ?<std::char_traits<char> ?>\(.*, char const\*\)$')
def _(E, st, a, ins, m):
    return ss_put(E, st, a[0], czrope(E, st, a[1]))


@free(r'^std::(?:basic_)?ostream(?:<char, std::char_traits<char> ?>)?& std::operator<< ?<std::char_traits<char> ?>\(.*, char\)$')
def _(E, st, a, ins, m):
    return ss_put(E, st, a[0], (('c', (ch8(E, st, a[1]),)),))


@free(r'^std::(?:basic_)?ostream(?:<char, std::char_traits<char> ?>)?& boost::units::operator<< ?<char, .*, boost::units::quantity<(.*), (double|float)> const&\)$')
def _(E, st, a, ins, m):
    # a quantity prints as the text of its number followed by the text of its unit (a fixed text for each unit type)
    p = a[1]
    v = E.load(st, p, SX.IR.DOUBLE if m.group(2) == 'double' else SX.IR.FLOAT)
    u = ' {' + hashlib.sha1(m.group(1).encode()).hexdigest()[:12] + '}'
    ss_put(E, st, a[0], to_text(E, st, E.real(v), 'flt'))
    return ss_put(E, st, a[0], (('c', tuple(C(ord(c)) for c in u)),))


# ---- containers keyed by strings -------------------------------------------------------------
@rx(r'^std::_Hash_bytes\(|^std::hash<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > ?>::operator\(\)')
def m_hash(E, st, a, ins):
    return ZERO          # some hash function: every key in one bucket


@rx(r'^std::__detail::_Prime_rehash_policy::_M_need_rehash\(')
def m_rehash(E, st, a, ins):
    return SX.Agg([ZERO, ZERO])


@rx(r'^std::__detail::_Prime_rehash_policy::_M_next_bkt\(')
def m_bkt(E, st, a, ins):
    return ONE


@rx(r'^std::locale::(locale\(\)|~locale\(\)|locale\(std::locale const&\)|classic\(\))')
def m_locale(E, st, a, ins):
    return None


# ---- memory hooks ----------------------------------------------------------------------------
def str_store(s, st, p, v, n):
    m = st.w(p.o)
    if n != 1 and not isinstance(v, Poly):
        raise Unsupported('string store')
    v = s.uns(st, v, 8 * n)
    chars = tuple(s.byte_of(st, v, 8 * n, k) for k in range(n))
    a, b = split(s, st, m.rope, p.off)
    _, c = split(s, st, b, C(n))
    st.w(p.o).rope = cat(a, (('c', chars),), c)


def str_load(s, st, p, n, ty):
    r = st.mem[p.o].rope
    ds = []
    if n > 1:
        ps = sub(s, st, r, p.off, C(n))
        if rlen(ps) != C(n) and not s.decide(st, eq(rlen(ps), C(n))):
            raise Unsupported('read past the end of a string')
        for k in range(n):
            ds.append(char_at(s, st, ps, C(k)))
    else:
        ds = [char_at(s, st, r, p.off)]
    if any(d is None for d in ds):
        raise Unsupported('read past the end of a string')
    return s.as_type(st, s.undigits(ds), n, 'i', ty)


def sub_rope(s, st, r, sb):
    out = []
    for p in r:
        if p[0] == 'c':
            out.append(('c', tuple(sb.poly(c) for c in p[1])))
        elif p[0] == 's':
            out.append(('s', p[1], sb.poly(p[2]), sb.poly(p[3])))
        elif p[0] == 'f':
            out.append(('f', sb.poly(p[1]), sb.poly(p[2])))
        else:
            out.append((p[0], p[1], sb.poly(p[2]), sb.poly(p[3]), p[4],
                        sub_rope(s, st, p[5], sb) if p[0] == 'w' else tuple(sb.poly(c) for c in p[5])))
    return cat(out)


def memcpy_str(s, st, d, q, n):
    md = s.obj(st, d)
    r = mem_rope(s, st, q, n)
    if md.kind == 'str':
        a, b = split(s, st, md.rope, d.off)
        _, c = split(s, st, b, n)
        st.w(d.o).rope = cat(a, r, c)
        return
    if n.is_const():
        for k in range(n.cval()):
            c = char_at(s, st, r, C(k))
            if c is None:
                raise Unsupported('read past the end of a string')
            s.store(st, d.add(k), c, 1, 'i')
        return
    if len(r) == 1 and r[0][0] in ('s', 'f', 'm'):
        p = r[0]
        v = alg.fresh('i', 'I').single()
        V = Poly.of(v)
        if p[0] == 's':
            u = SX.Upd(v, ZERO, n, d.off, 1, {0: Cell(1, alg.select(p[1], p[2] + V), 'i')})
        elif p[0] == 'f':
            u = SX.Upd(v, ZERO, n, d.off, 1, {0: Cell(1, p[1], 'i')})
        else:
            sb = Subst({p[1].id: p[2] + V})
            u = SX.Upd(v, ZERO, p[3], d.off, p[4], {j: Cell(1, sb.poly(c), 'i') for j, c in enumerate(p[5])})
        m = st.w(d.o)
        m.ups.append(u)
        return
    if not r:
        return
    acc = ZERO
    for p in r:
        L = plen(p)
        o = s.new(st, ZERO, kind='str')
        st.mem[o].rope = (p,)
        memcpy_str(s, st, d.add(acc), Ptr(o), L)
        acc = acc + L


def memcpy_sym(s, st, d, q, n):
    if s.decided(st, eq0(n)) is True:
        return
    md, mq = s.obj(st, d), s.obj(st, q)
    if md.kind == 'str' or mq.kind == 'str':
        return memcpy_str(s, st, d, q, n)
    # element-wise copy of one comprehension
    if mq.ups and not mq.cells:
        u = mq.ups[-1]
        if len(mq.ups) == 1 and u.var is not None and u.base == q.off and not u.lo.d and u.hi * u.stride == n and not u.objs:
            st.w(d.o).ups.append(SX.Upd(u.var, u.lo, u.hi, d.off, u.stride, dict(u.cells), None, u.span))
            return
    # a whole object
    if not d.off.d and not q.off.d and d.o != q.o and s.decided(st, le(md.size, n)) is True:
        m = st.w(d.o)
        m.cells, m.ups, m.init = dict(mq.cells), list(mq.ups), mq.init
        return
    raise Unsupported('memcpy of symbolic length (%s of %s)' % (n, md.size))


def memset_sym(s, st, d, b, n):
    if s.decided(st, eq0(n)) is True:
        return
    md = s.obj(st, d)
    if md.kind == 'str':
        a, r = split(s, st, md.rope, d.off)
        _, c = split(s, st, r, n)
        st.w(d.o).rope = cat(a, fill(s.uns(st, b, 8), n), c)
        return
    v = alg.fresh('i', 'I').single()
    st.w(d.o).ups.append(SX.Upd(v, ZERO, n, d.off, 1, {0: Cell(1, s.uns(st, b, 8), 'z' if not b.d else 'i')}))


SX.Exec.str_store = str_store
SX.Exec.str_load = str_load
SX.Exec.sub_rope = sub_rope
SX.Exec.revive = revive
SX.Exec.memcpy_str = memcpy_str
SX.Exec.memcpy_sym = memcpy_sym
SX.Exec.memset_sym = memset_sym
SX.Exec.memset_str = memset_sym
