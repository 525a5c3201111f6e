"""Terms: polynomials (with integer exponents) over hash-consed atoms; formulas over them; translation to z3."""
from fractions import Fraction as Q
import math
import z3

_atoms = {}
_by_id = []
INF = None


class Atom:
    __slots__ = ('id', 'key', 'kind', 'args', 'sort', 'lo', 'hi', 'z', 'name')

    def __repr__(s):
        return f"{s.kind}:{s.name or ''}{list(s.args) if s.args else ''}"


def atom(kind, args, sort, lo=None, hi=None, name=None):
    key = (kind, name, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id, a.key, a.kind, a.args, a.sort, a.name = len(_by_id), key, kind, args, sort, name
        a.lo, a.hi, a.z = lo, hi, None
        _atoms[key] = a
        _by_id.append(a)
    return a


_cnt = [0]


def fresh(prefix, sort='I', lo=None, hi=None):
    _cnt[0] += 1
    return Poly.of(atom('var', (), sort, lo, hi, f"{prefix}!{_cnt[0]}"))


def _m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            del d[a]
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('d', '_h')

    def __init__(s, d):
        s.d = d
        s._h = None

    @staticmethod
    def of(a):
        return Poly({((a.id, 1),): 1})

    @staticmethod
    def const(c):
        if isinstance(c, Q) and c.denominator == 1:
            c = c.numerator
        return Poly({(): c}) if c else Poly({})

    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.d.items()))
        return s._h

    def __eq__(s, o):
        return isinstance(o, Poly) and s.d == o.d

    def __add__(s, o):
        if isinstance(o, (int, Q)):
            o = Poly.const(o)
        if len(s.d) < len(o.d):
            s, o = o, s
        d = dict(s.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x:
                d[m] = x
            else:
                del d[m]
        return Poly(d)
    __radd__ = __add__

    def __neg__(s):
        return Poly({m: -c for m, c in s.d.items()})

    def __sub__(s, o):
        if isinstance(o, (int, Q)):
            o = Poly.const(o)
        return s + (-o)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        if isinstance(o, (int, Q)):
            if o == 0:
                return Poly({})
            return Poly({m: _n(c * o) for m, c in s.d.items()})
        if len(s.d) * len(o.d) > 60000:
            raise TooBig()
        d = {}
        for m1, c1 in s.d.items():
            for m2, c2 in o.d.items():
                m = _m_mul(m1, m2)
                x = d.get(m, 0) + c1 * c2
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
        return Poly({m: _n(c) for m, c in d.items()})
    __rmul__ = __mul__

    def __pow__(s, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * s
        return r

    def is_const(s):
        return not s.d or (len(s.d) == 1 and () in s.d)

    def cval(s):
        return s.d.get((), 0)

    def atoms(s):
        return {_by_id[a] for m in s.d for a, _ in m}

    def single(s):
        """the atom if the polynomial is exactly one atom"""
        if len(s.d) == 1:
            (m, c), = s.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _by_id[m[0][0]]
        return None

    def sort(s):
        for m, c in s.d.items():
            if isinstance(c, Q):
                return 'R'
            for a, e in m:
                if _by_id[a].sort == 'R' or e < 0:
                    return 'R'
        return 'I'

    def __repr__(s):
        if not s.d:
            return '0'
        out = []
        for m, c in sorted(s.d.items(), key=lambda x: str(x[0])):
            t = '*'.join((str(_by_id[a]) + (f'^{e}' if e != 1 else '')) for a, e in m)
            out.append(f"{c}{'*' + t if t else ''}")
        return '(' + ' + '.join(out) + ')'


class TooBig(Exception):
    pass


def _n(c):
    if isinstance(c, Q) and c.denominator == 1:
        return c.numerator
    return c


ZERO, ONE = Poly.const(0), Poly.const(1)
PI = Poly.of(atom('pi', (), 'R', Q(314159265358979323846, 10**20), Q(314159265358979323847, 10**20), 'pi'))
PI_ID = PI.single().id


def C(x):
    return Poly.const(x)


# ---- intervals -----------------------------------------------------------------------
def _imul(a, b):
    (al, ah), (bl, bh) = a, b
    if None in (al, ah, bl, bh):
        if al is not None and bl is not None and al >= 0 and bl >= 0:
            return (al * bl, None if (ah is None or bh is None) else ah * bh)
        return (None, None)
    ps = (al * bl, al * bh, ah * bl, ah * bh)
    return (min(ps), max(ps))


def bounds(p, extra=None):
    lo = hi = 0
    for m, c in p.d.items():
        iv = (1, 1)
        for a, e in m:
            at = _by_id[a]
            if e < 0:
                if at.lo is not None and at.hi is not None and (at.lo > 0 or at.hi < 0):
                    b = (Q(1) / at.hi, Q(1) / at.lo)
                else:
                    b = (None, None)
                if e != -1:
                    b = (None, None)
            else:
                b = (at.lo, at.hi)
                if extra:
                    x = extra.get(a)
                    if x:
                        l2, h2 = x
                        b = (l2 if b[0] is None else b[0] if l2 is None else max(b[0], l2),
                             h2 if b[1] is None else b[1] if h2 is None else min(b[1], h2))
                if e > 1:
                    bb = b
                    for _ in range(e - 1):
                        bb = _imul(bb, b)
                    if e % 2 == 0:
                        bb = (0 if bb[0] is None or bb[0] < 0 else bb[0], bb[1])
                    b = bb
            iv = _imul(iv, b)
        l, h = iv
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


# ---- formulas ------------------------------------------------------------------------
class F:
    __slots__ = ('k', 'a', '_h', 'z')

    def __init__(s, k, *a):
        s.k, s.a, s._h, s.z = k, a, None, None

    def __hash__(s):
        if s._h is None:
            s._h = hash((s.k,) + s.a)
        return s._h

    def __eq__(s, o):
        return s is o or (isinstance(o, F) and hash(s) == hash(o) and s.k == o.k and s.a == o.a)

    def __repr__(s):
        if s.k in ('and', 'or'):
            return '(' + (' & ' if s.k == 'and' else ' | ').join(map(repr, s.a)) + ')'
        return f"{s.k}{list(s.a)}"


T, FF = F('true'), F('false')


def fnot(f):
    if f.k == 'true':
        return FF
    if f.k == 'false':
        return T
    if f.k == 'not':
        return f.a[0]
    if f.k == 'le0':      # not p<=0  <=> -p<0
        return lt0(-f.a[0])
    if f.k == 'lt0':
        return le0(-f.a[0])
    if f.k == 'and':
        return f_or(*[fnot(x) for x in f.a])
    if f.k == 'or':
        return f_and(*[fnot(x) for x in f.a])
    return F('not', f)


def f_and(*fs):
    r = []
    for f in fs:
        if f.k == 'false':
            return FF
        if f.k == 'true':
            continue
        for g in (f.a if f.k == 'and' else (f,)):
            if g not in r:
                r.append(g)
    return T if not r else r[0] if len(r) == 1 else F('and', *r)


def f_or(*fs):
    r = []
    for f in fs:
        if f.k == 'true':
            return T
        if f.k == 'false':
            continue
        for g in (f.a if f.k == 'or' else (f,)):
            if g not in r:
                r.append(g)
    return FF if not r else r[0] if len(r) == 1 else F('or', *r)


def fimp(a, b):
    return f_or(fnot(a), b)


def _prim(p, sign=True):
    """divide by the gcd of the coefficients (positive)"""
    if not p.d:
        return p
    den = 1
    for c in p.d.values():
        if isinstance(c, Q):
            den = den * c.denominator // math.gcd(den, c.denominator)
    if den != 1:
        p = p * den
    g = 0
    for m, c in p.d.items():
        g = math.gcd(g, int(c))
    if g > 1:
        p = Poly({m: c // g for m, c in p.d.items()})
    return p


def le0(p):
    lo, hi = bounds(p)
    if hi is not None and hi <= 0:
        return T
    if lo is not None and lo > 0:
        return FF
    if p.sort() == 'I':
        # g*(q)+c<=0  <=> q <= floor(-c/g)
        c = p.d.get((), 0)
        g = 0
        for m, k in p.d.items():
            if m:
                g = math.gcd(g, k)
        if g > 1:
            q = Poly({m: k // g for m, k in p.d.items() if m})
            return F('le0', q - ((-c) // g))
        return F('le0', p)
    return F('le0', _prim(p))


def lt0(p):
    if p.sort() == 'I':
        return le0(p + 1)
    lo, hi = bounds(p)
    if hi is not None and hi < 0:
        return T
    if lo is not None and lo >= 0:
        return FF
    return F('lt0', _prim(p))


def eq0(p):
    if not p.d:
        return T
    if p.is_const():
        return FF
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FF
    if p.sort() == 'I':
        c = p.d.get((), 0)
        g = 0
        for m, k in p.d.items():
            if m:
                g = math.gcd(g, k)
        if g and c % g:
            return FF
    p = _prim(p)
    # canonical sign
    m = min(p.d, key=lambda x: (x == (), x))
    if p.d[m] < 0:
        p = -p
    return F('eq0', p)


def lt(a, b):
    return lt0(a - b)


def le(a, b):
    return le0(a - b)


def eq(a, b):
    return eq0(a - b)


def ite(c, a, b):
    if c.k == 'true' or a == b:
        return a
    if c.k == 'false':
        return b
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    so = 'R' if 'R' in (a.sort(), b.sort()) else 'I'
    return Poly.of(atom('ite', (c, a, b), so, lo, hi))


def idiv(p, c):
    """floor division by a positive constant"""
    assert c > 0
    if c == 1:
        return p
    if p.is_const():
        return C(p.cval() // c)
    # pull out multiples of c
    q = Poly({m: k // c for m, k in p.d.items() if k % c == 0})
    r = Poly({m: k for m, k in p.d.items() if k % c})
    lo, hi = bounds(r)
    if lo is not None and hi is not None and lo // c == hi // c:
        return q + lo // c
    if q.d:
        return q + idiv(r, c)
    g = c
    for m, k in r.d.items():
        if m:
            g = math.gcd(g, k)
    if g > 1:      # floor((g*x + k)/ (g*c')) = floor((x + floor(k/g))/c')
        k0 = r.d.get((), 0)
        return idiv(Poly({m: k // g for m, k in r.d.items() if m}) + k0 // g, c // g)
    s = r.single()
    if s is not None and s.kind == 'idiv':
        return idiv(s.args[0], s.args[1] * c)
    return Poly.of(atom('idiv', (r, c), 'I', None if lo is None else lo // c, None if hi is None else hi // c))


def imod(p, c):
    assert c > 0
    if c == 1:
        return ZERO
    if p.is_const():
        return C(p.cval() % c)
    r = Poly({m: k % c for m, k in p.d.items() if k % c})
    # prefer the small representative when it already lies in range
    for cand in (Poly({m: k for m, k in p.d.items() if k % c}), r):
        lo, hi = bounds(cand)
        if lo is not None and hi is not None and lo >= 0 and hi < c:
            return cand
    return p - idiv(p, c) * c


def select(arr, idx, lo=0, hi=255):
    return Poly.of(atom('sel', (idx,), 'I', lo, hi, arr))


def fn(name, args, sort='R', lo=None, hi=None):
    return Poly.of(atom('fn', tuple(args), sort, lo, hi, name))


# ---- real helpers ----------------------------------------------------------------------
def inv(p):
    """1/p for a nonzero polynomial"""
    if p.is_const():
        return C(Q(1) / p.cval())
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if all(_by_id[a].kind != 'ite' for a, e in m):
            return Poly({tuple((a, -e) for a, e in m): _n(Q(1) / c)})
    c0 = p.d[min(p.d)]
    pp = Poly({m: _n(Q(c) / c0) for m, c in p.d.items()})
    return Poly.of(atom('inv', (pp,), 'R')) * _n(Q(1) / c0)


def trig_reduce(p):
    """sin(x)^2 -> 1-cos(x)^2, sqrt(x)^2 -> x, x*inv(x)->1 where visible; fixpoint"""
    for _ in range(60):
        hit = None
        for m in p.d:
            for a, e in m:
                at = _by_id[a]
                if at.kind == 'fn' and e >= 2 and at.name in ('sin', 'sqrt'):
                    hit = (m, a, e, at)
                    break
            if hit:
                break
        if not hit:
            return p
        # rewrite all monomials with this atom at once
        _, a, _, at = hit
        if at.name == 'sin':
            base = ONE - fn('cos', at.args, 'R', -1, 1) ** 2
        else:
            base = at.args[0]
        out = ZERO
        for m, c in p.d.items():
            e = dict(m).get(a, 0)
            if e >= 2:
                rest = tuple((x, y) for x, y in m if x != a)
                t = Poly({rest: c})
                if e % 2:
                    t = t * Poly({((a, 1),): 1})
                t = t * base ** (e // 2)
                out = out + t
            else:
                out = out + Poly({m: c})
        p = out
    return p


def clear_denoms(p):
    """multiply by the (nonzero) denominators; returns polynomial without negative exponents / inv atoms"""
    for _ in range(40):
        neg = {}
        invs = {}
        for m in p.d:
            for a, e in m:
                at = _by_id[a]
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
                elif at.kind == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
        if not neg and not invs:
            return p
        if neg:
            mul = Poly({tuple(sorted(neg.items())): 1})
            p = trig_reduce(p * mul)
            continue
        a, k = next(iter(invs.items()))
        at = _by_id[a]
        out = ZERO
        for m, c in p.d.items():
            e = dict(m).get(a, 0)
            rest = tuple((x, y) for x, y in m if x != a)
            out = out + Poly({rest: c}) * (at.args[0] ** (k - e))
        p = trig_reduce(out)
    return p


def real_zero(p):
    """is the real polynomial identically zero (algebraically)?"""
    try:
        p = trig_reduce(p)
        if not p.d:
            return True
        p = clear_denoms(p)
        return not p.d
    except TooBig:
        return False


# ---- substitution ---------------------------------------------------------------------
class Subst:
    """simultaneous substitution of 'var' atoms by polynomials and of array names"""

    def __init__(s, mp, rename=None):
        s.mp = mp          # atom id -> Poly
        s.cache = {}
        s.rename = rename or {}

    def poly(s, p):
        out = None
        keep = {}
        for m, c in p.d.items():
            ch = False
            fac = None
            for a, e in m:
                r = s.at(a)
                if r is not None:
                    ch = True
                    break
            if not ch:
                keep[m] = c
                continue
            t = C(c)
            for a, e in m:
                r = s.at(a)
                if r is None:
                    t = t * Poly({((a, e),): 1})
                elif e > 0:
                    t = t * (r ** e)
                else:
                    t = t * (inv(r) ** (-e))
            out = t if out is None else out + t
        k = Poly(keep)
        return k if out is None else k + out

    def at(s, aid):
        """None when unchanged"""
        if aid in s.mp:
            return s.mp[aid]
        if aid in s.cache:
            return s.cache[aid]
        at = _by_id[aid]
        r = None
        if at.args:
            na = []
            ch = False
            for x in at.args:
                y = s.poly(x) if isinstance(x, Poly) else s.form(x) if isinstance(x, F) else x
                ch |= y is not x and y != x
                na.append(y)
            nm = s.rename.get(at.name, at.name) if at.kind == 'sel' else at.name
            if ch or nm != at.name:
                if at.kind == 'ite':
                    r = ite(*na)
                elif at.kind == 'idiv':
                    r = idiv(*na)
                elif at.kind == 'inv':
                    r = inv(na[0])
                else:
                    r = Poly.of(atom(at.kind, tuple(na), at.sort, at.lo, at.hi, nm))
        s.cache[aid] = r
        return r

    def form(s, f):
        k = f.k
        if k in ('true', 'false'):
            return f
        if k in ('le0', 'lt0', 'eq0'):
            q = s.poly(f.a[0])
            if q is f.a[0] or q == f.a[0]:
                return f
            return {'le0': le0, 'lt0': lt0, 'eq0': eq0}[k](q)
        if k == 'and':
            return f_and(*[s.form(x) for x in f.a])
        if k == 'or':
            return f_or(*[s.form(x) for x in f.a])
        if k == 'not':
            return fnot(s.form(f.a[0]))
        if k == 'forall':
            return F('forall', f.a[0], s.form(f.a[1]), tuple(s.poly(x) for x in f.a[2]))
        if k == 'p':       # uninterpreted predicate
            return F('p', f.a[0], *[s.poly(x) for x in f.a[1:]])
        raise Exception("subst " + k)


# ---- z3 ------------------------------------------------------------------------------
_arr = {}
_fns = {}


def z_arr(name):
    if name not in _arr:
        _arr[name] = z3.Array(name, z3.IntSort(), z3.IntSort())
    return _arr[name]


def z_fn(name, n, sort, argsorts):
    k = (name, n, sort, argsorts)
    if k not in _fns:
        S = {'I': z3.IntSort(), 'R': z3.RealSort()}
        _fns[k] = z3.Function(name + '_' + ''.join(argsorts), *[S[x] for x in argsorts], S[sort])
    return _fns[k]


def z_atom(a):
    if a.z is not None:
        return a.z
    k = a.kind
    if k == 'var':
        z = z3.Int(a.name) if a.sort == 'I' else z3.Real(a.name)
    elif k == 'pi':
        z = z3.Real('pi')
    elif k == 'sel':
        z = z3.Select(z_arr(a.name), zp(a.args[0]))
    elif k == 'ite':
        x, y = zp(a.args[1]), zp(a.args[2])
        if a.sort == 'R':
            x, y = _toreal(x), _toreal(y)
        z = z3.If(zf(a.args[0]), x, y)
    elif k == 'idiv':
        z = zp(a.args[0]) / z3.IntVal(a.args[1])
    elif k == 'inv':
        z = 1 / _toreal(zp(a.args[0]))
    elif k == 'fn':
        if a.name == 'floor':
            z = z3.ToInt(_toreal(zp(a.args[0])))
        else:
            ar = []
            so = []
            for x in a.args:
                t = zp(x)
                so.append('I' if t.sort() == z3.IntSort() else 'R')
                ar.append(t)
            if a.sort == 'R' and a.name in REALFN:
                ar = [_toreal(t) for t in ar]
                so = ['R'] * len(ar)
            z = z_fn(a.name, len(ar), a.sort, tuple(so))(*ar)
    else:
        raise Exception('z_atom ' + k)
    a.z = z
    return z


REALFN = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'exp', 'log', 'pow'}


def _toreal(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


_zpc = {}


def zp(p):
    z = _zpc.get(p)
    if z is not None:
        return z
    real = p.sort() == 'R'
    terms = []
    for m, c in p.d.items():
        fs = []
        den = []
        for a, e in m:
            t = z_atom(_by_id[a])
            if real:
                t = _toreal(t)
            (fs if e > 0 else den).extend([t] * abs(e))
        if c != 1 or not fs:
            cv = z3.RealVal(str(c)) if real else z3.IntVal(int(c))
            fs = [cv] + fs
        t = fs[0]
        for x in fs[1:]:
            t = t * x
        for x in den:
            t = t / x
        terms.append(t)
    if not terms:
        z = z3.IntVal(0)
    elif len(terms) == 1:
        z = terms[0]
    else:
        z = z3.Sum(terms)
    _zpc[p] = z
    return z


def zf(f):
    if f.z is not None:
        return f.z
    k = f.k
    if k == 'true':
        z = z3.BoolVal(True)
    elif k == 'false':
        z = z3.BoolVal(False)
    elif k in ('le0', 'lt0', 'eq0'):
        p = f.a[0]
        # move negatives to the right for readability / linear form
        pos = Poly({m: c for m, c in p.d.items() if c > 0})
        neg = Poly({m: -c for m, c in p.d.items() if c < 0})
        l, r = zp(pos), zp(neg)
        if l.sort() != r.sort():
            l, r = _toreal(l), _toreal(r)
        z = l <= r if k == 'le0' else l < r if k == 'lt0' else l == r
    elif k == 'and':
        z = z3.And([zf(x) for x in f.a])
    elif k == 'or':
        z = z3.Or([zf(x) for x in f.a])
    elif k == 'not':
        z = z3.Not(zf(f.a[0]))
    elif k == 'p':
        args = [zp(x) for x in f.a[1:]]
        key = ('P', f.a[0], len(args))
        if key not in _fns:
            _fns[key] = z3.Function(f.a[0], *[a.sort() for a in args], z3.BoolSort())
        z = _fns[key](*args)
    elif k == 'forall':
        v = z_atom(f.a[0])
        pats = [zp(x) for x in f.a[2]]
        z = z3.ForAll([v], zf(f.a[1]), patterns=pats) if pats else z3.ForAll([v], zf(f.a[1]))
    else:
        raise Exception('zf ' + k)
    f.z = z
    return z


def collect_atoms(fs):
    """all atoms reachable from formulas/polys"""
    seen = {}
    fseen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for m in x.d:
                for a, _ in m:
                    if a not in seen:
                        at = _by_id[a]
                        seen[a] = at
                        st.extend(y for y in at.args if isinstance(y, (Poly, F)))
        elif isinstance(x, F):
            if id(x) in fseen:
                continue
            fseen.add(id(x))
            st.extend(y for y in x.a if isinstance(y, (Poly, F)))
            for y in x.a:
                if isinstance(y, tuple):
                    st.extend(z for z in y if isinstance(z, (Poly, F)))
    return list(seen.values())


def axioms_for(ats, bound_vars=()):
    """ground facts about atoms: ranges and function axioms. Atoms containing bound variables are skipped."""
    out = []
    for a in ats:
        if bound_vars and any(b.id in {x.id for x in collect_atoms([Poly.of(a)])} for b in bound_vars):
            continue
        z = None
        if a.lo is not None or a.hi is not None:
            z = z_atom(a)
            if a.kind in ('ite',):
                pass
            else:
                if a.lo is not None:
                    out.append(z >= _zc(a.lo, a.sort))
                if a.hi is not None:
                    out.append(z <= _zc(a.hi, a.sort))
        if a.kind == 'fn':
            z = z_atom(a)
            if a.name in ('sin', 'cos'):
                s = z_atom(fn('sin', a.args, 'R', -1, 1).single())
                c = z_atom(fn('cos', a.args, 'R', -1, 1).single())
                out.append(s * s + c * c == 1)
            elif a.name == 'sqrt':
                out.append(z >= 0)
                if len(a.args[0].d) > 24 or any(sum(abs(e) for _, e in m) > 6 for m in a.args[0].d):
                    continue
                t = _toreal(zp(a.args[0]))
                out.append(z3.Implies(t >= 0, z * z == t))
            elif a.name == 'acos':
                out.append(z >= 0)
                out.append(z <= z3.Real('pi'))
            elif a.name == 'asin':
                out.append(z * 2 >= -z3.Real('pi'))
                out.append(z * 2 <= z3.Real('pi'))
            elif a.name == 'atan2':
                out.append(z > -z3.Real('pi'))
                out.append(z <= z3.Real('pi'))
    out.append(z3.Real('pi') > z3.RealVal("3.14159265358979"))
    out.append(z3.Real('pi') < z3.RealVal("3.14159265358980"))
    return out


def _zc(v, sort):
    if sort == 'I':
        return z3.IntVal(int(v))
    return z3.RealVal(str(v))
