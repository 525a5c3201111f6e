"""Contracts assumed for library functions (the trusted base), as models over the symbolic state."""
import re, subprocess
from fractions import Fraction as Q
import alg
from alg import *
from symex import *
import symex as SX

EXACT = {}
RX = []


def exact(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def rx(pat):
    def d(f):
        RX.append((re.compile(pat), f))
        return f
    return d


_dm = {}


def demangle_many(names):
    names = [n for n in names if n not in _dm]
    if names:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, r.stdout.split('\n')):
            _dm[a] = b


def demangle(n):
    if n not in _dm:
        demangle_many([n])
    return _dm[n]


class Models:
    def __init__(s):
        s.cache = {}
        s.extra = []       # (regex, handler) tried first
        s.used = {}

    def find(s, name):
        if name in s.cache:
            return s.cache[name]
        h = None
        d = None
        for r, f in s.extra:
            if r.search(demangle(name)):
                h = f
        if h is None:
            h = EXACT.get(name)
        if h is None and name.startswith('llvm.'):
            h = intrinsic(name)
        if h is None:
            d = demangle(name)
            for r, f in RX:
                if r.search(d):
                    h = f
                    break
        if h is None:
            import strings
            d = strings.simplify(d)
            h = strings.string_member(d) or strings.free_function(d)
        s.cache[name] = h
        return h


# ---- intrinsics ---------------------------------------------------------------------------
def nop(E, st, a, ins):
    return None


def intrinsic(n):
    b = n.split('.')
    k = b[1]
    if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant',
                     'llvm.stackrestore', 'llvm.prefetch', 'llvm.donothing')):
        return nop
    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
        return lambda E, st, a, ins: E.memcpy(st, a[0], a[1], E.uns(st, a[2], 64))
    if n.startswith('llvm.memset'):
        return lambda E, st, a, ins: E.memset(st, a[0], a[1], E.uns(st, a[2], 64))
    if k == 'bswap':
        w = int(b[2][1:])

        def bs(E, st, a, ins):
            return E.undigits([E.byte_of(st, a[0], w, j) for j in range(w // 8)][::-1])
        return bs
    if k in ('fabs',):
        return lambda E, st, a, ins: m_fabs(E, st, a[0])
    if k in ('umax', 'umin', 'smax', 'smin'):
        w = int(b[2][1:])

        def mm(E, st, a, ins):
            v = E.uns if k[0] == 'u' else E.sig
            x, y = v(st, a[0], w), v(st, a[1], w)
            c = le(x, y)
            return (y if E.decide(st, c) else x) if k.endswith('max') else (x if E.decide(st, c) else y)
        return mm
    if k == 'abs':
        w = int(b[2][1:])

        def ab(E, st, a, ins):
            x = E.sig(st, a[0], w)
            return x if E.decide(st, le(ZERO, x)) else -x
        return ab
    if k in ('sqrt', 'sin', 'cos', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'pow', 'exp', 'log'):
        return EXACT[k]
    if k == 'powi':
        return lambda E, st, a, ins: E.real(a[0]) ** a[1].cval()
    if k in ('fmuladd', 'fma'):
        return lambda E, st, a, ins: E.real(a[0]) * E.real(a[1]) + E.real(a[2])
    if k in ('maxnum', 'minnum'):
        def mx(E, st, a, ins):
            x, y = E.real(a[0]), E.real(a[1])
            c = E.decide(st, le(x, y))
            return (y if c else x) if k == 'maxnum' else (x if c else y)
        return mx
    if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and 'overflow' in n:
        w = int(b[-1][1:])

        def ov(E, st, a, ins):
            v = E.uns if k[0] == 'u' else E.sig
            x, y = v(st, a[0], w), v(st, a[1], w)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[k[1:]]
            lo, hi = (0, 1 << w) if k[0] == 'u' else (-(1 << (w - 1)), 1 << (w - 1))
            return Agg([r, f_or(lt(r, C(lo)), le(C(hi), r))])
        return ov
    if n.startswith('llvm.eh.typeid.for'):
        def tf(E, st, a, ins):
            o = a[0].o
            if o is None:
                return C(E.typeid('...'))
            return C(E.typeid(o[1]))
        return tf
    if k in ('ctlz', 'cttz', 'ctpop'):
        w = int(b[2][1:])

        def cnt(E, st, a, ins):
            x = E.uns(st, a[0], w)
            if not x.is_const():
                raise Unsupported('call to ' + n)
            t = format(int(x.cval()), '0%db' % w)
            return C(t.count('1') if k == 'ctpop' else w if '1' not in t else t.index('1') if k == 'ctlz' else t[::-1].index('1'))
        return cnt
    if k in ('fshl', 'fshr'):
        w = int(b[2][1:])

        def fsh(E, st, a, ins):
            sh = E.uns(st, a[2], w)
            if not sh.is_const() or sh.cval() % 8 or w % 8:
                raise Unsupported('call to ' + n)
            sh = int(sh.cval()) % w // 8
            both = [E.byte_of(st, a[1], w, j) for j in range(w // 8)] + [E.byte_of(st, a[0], w, j) for j in range(w // 8)]
            at = w // 8 - sh if k == 'fshl' else sh
            return E.undigits(both[at:at + w // 8])
        return fsh
    if k in ('usub', 'uadd') and 'sat' in n:
        w = int(b[-1][1:])

        def sat(E, st, a, ins):
            x, y = E.uns(st, a[0], w), E.uns(st, a[1], w)
            if k == 'usub':
                return x - y if E.decide(st, le(y, x)) else ZERO
            return x + y if E.decide(st, le(x + y, C((1 << w) - 1))) else C((1 << w) - 1)
        return sat
    if n.startswith('llvm.expect'):
        return lambda E, st, a, ins: a[0]
    if n.startswith('llvm.is.constant'):
        return lambda E, st, a, ins: FF
    if n.startswith('llvm.objectsize'):
        return lambda E, st, a, ins: C(-1)
    if n.startswith('llvm.stacksave'):
        return lambda E, st, a, ins: NULL
    if n.startswith('llvm.trap'):
        def tr(E, st, a, ins):
            E.obligation(st, 'no abort', FF, info='trap reached')
            raise PathEnd()
        return tr
    if k == 'copysign':
        def cs(E, st, a, ins):
            x, y = E.real(a[0]), E.real(a[1])
            x = m_fabs(E, st, x)
            return x if E.decide(st, le(ZERO, y)) else -x
        return cs
    if k == 'load' and 'relative' in n:
        return None
    return None


# ---- contract vocabulary --------------------------------------------------------------------
def cstr(E, st, p):
    m = E.obj(st, p)
    o = p.off.cval()
    out = []
    if m.kind == 'str':
        return None
    while True:
        b = E.byte_at(st, m, o)
        if not isinstance(b, Poly) or not b.is_const():
            raise Unsupported('symbolic C string')
        if b.cval() == 0:
            return bytes(out)
        out.append(b.cval() % 256)
        o += 1


def cname(E, st, p):
    return cstr(E, st, p).decode('latin1')


def _k(E, st, p, what):
    if not p.is_const():
        return None
    return p.cval()


@exact('vp_anyreal')
def vp_anyreal(E, st, a, ins):
    v = alg.fresh('in_' + cname(E, st, a[0]), 'R')
    st.inputs.append(('real', cname(E, st, a[0]), v))
    return v


@exact('vp_real')
def vp_real(E, st, a, ins):
    lo, hi = E.real(a[1]), E.real(a[2])
    v = alg.fresh('in_' + cname(E, st, a[0]), 'R', lo.cval() if lo.is_const() else None, hi.cval() if hi.is_const() else None)
    st.inputs.append(('real', cname(E, st, a[0]), v))
    st.assume(le(lo, v))
    st.assume(le(v, hi))
    return v


@exact('vp_int')
def vp_int(E, st, a, ins):
    lo, hi = E.sig(st, a[1], 64), E.sig(st, a[2], 64)
    v = alg.fresh('in_' + cname(E, st, a[0]), 'I', bounds(lo, st.bnd)[0], bounds(hi, st.bnd)[1])
    st.inputs.append(('int', cname(E, st, a[0]), v))
    st.assume(le(lo, v))
    st.assume(le(v, hi))
    return v


@exact('vp_bits')
def vp_bits(E, st, a, ins):
    w = a[1].cval()
    r = ZERO
    n = cname(E, st, a[0])
    for k in range(0, w, 8):
        m = min(8, w - k)
        r = r + alg.fresh(f'in_{n}_b{k//8}', 'I', 0, (1 << m) - 1) * (1 << k)
    st.inputs.append(('bits', n, r))
    return r


@exact('vp_assume')
def vp_assume(E, st, a, ins):
    f = E.to_bool(st, a[0])
    r = E.decided(st, f)
    if r is False:
        raise PathEnd()
    st.assume(f)
    if E.sol.check(st.pc, []) == 'unsat':
        raise PathEnd()


@exact('vp_ensure')
def vp_ensure(E, st, a, ins):
    E.obligation(st, cname(E, st, a[1]), E.to_bool(st, a[0]))


@exact('vp_same')
def vp_same(E, st, a, ins):
    n = cname(E, st, a[2])
    x, y = a[0], a[1]
    if isinstance(x, SX.FS) or isinstance(y, SX.FS):
        ok = isinstance(x, SX.FS) and isinstance(y, SX.FS) and (x.d == y.d or (x.d != x.d and y.d != y.d))
        return E.obligation(st, n, T if ok else FF)
    if isinstance(x, SX.FB) and isinstance(y, SX.FB) and x.w == y.w:
        return E.obligation(st, n, eq(x.bits, y.bits))
    x, y = E.real(x), E.real(y)
    E.obligation(st, n, eq(x, y), real=(x, y))


@exact('vp_fork')
def vp_fork(E, st, a, ins):
    x = E.sig(st, a[0], 64)
    for k in range(a[1].cval(), a[2].cval() + 1):
        if E.decide(st, eq(x, C(k))):
            return C(k)
    raise PathEnd()


@exact('vp_unroll')
def vp_unroll(E, st, a, ins):
    E.maxunroll = a[0].cval()


@exact('vp_bounded')
def vp_bounded(E, st, a, ins):
    E.bounded = E.bounded or cname(E, st, a[0])


@exact('vp_reach')
def vp_reach(E, st, a, ins):
    n = cname(E, st, a[0])
    if n not in E.reached:
        E.reached.add(n)
    return None


# ---- allocation, runtime ----------------------------------------------------------------------
@exact('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
def m_new(E, st, a, ins):
    return Ptr(E.new(st, E.uns(st, a[0], 64)))


@exact('_ZdlPv', '_ZdaPv', '_ZdlPvm', 'free', '_ZdaPvm')
def m_delete(E, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.o is not None and p.o in st.mem:
        st.kill(p.o)


@exact('__cxa_allocate_exception')
def m_cxa_alloc(E, st, a, ins):
    o = E.new(st, E.uns(st, a[0], 64))
    return Ptr(o)


@exact('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit',
       '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def m_nop(E, st, a, ins):
    return ZERO


@exact('__cxa_guard_acquire')
def m_guard(E, st, a, ins):
    m = E.obj(st, a[0])
    if m.cells.get(0) and m.tag == 'guarded':
        return ZERO
    E.w_(st, a[0].o).tag = 'guarded'
    E.w_(st, a[0].o).cells[0] = Cell(8, ONE, 'i')
    return ONE


@exact('__cxa_throw')
def m_throw(E, st, a, ins):
    ti = a[1].o[1]
    E.w_(st, a[0].o).tag = ('exc', ti)
    raise Throw(a[0], ti)


@exact('__cxa_begin_catch', '__cxa_get_exception_ptr')
def m_begin(E, st, a, ins):
    st.caught.append(a[0])
    return a[0]


@exact('__cxa_rethrow')
def m_rethrow(E, st, a, ins):
    p = st.caught[-1]
    raise Throw(p, st.mem[p.o].tag[1])


@exact('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__cxa_bad_cast')
def m_term(E, st, a, ins):
    E.obligation(st, 'no abort', FF, info='terminate reached')
    raise PathEnd()


@exact('__assert_fail')
def m_assert(E, st, a, ins):
    E.obligation(st, 'no assertion failure', FF, info='assert')
    raise PathEnd()


def throw_std(E, st, ti):
    """library function throws an exception of the named standard type"""
    o = E.new(st, 16)
    st.mem[o].tag = ('exc', ti)
    raise Throw(Ptr(o), ti)


@rx(r'^std::__throw_(length_error|out_of_range|out_of_range_fmt|logic_error|bad_alloc|bad_array_new_length|bad_cast|bad_function_call|invalid_argument)\(')
def m_stdthrow(E, st, a, ins):
    nm = demangle(ins.x['callee'][1][1:])
    k = re.search(r'__throw_(\w+)\(', nm).group(1)
    ti = {'length_error': '@_ZTISt12length_error', 'out_of_range': '@_ZTISt12out_of_range', 'out_of_range_fmt': '@_ZTISt12out_of_range',
          'logic_error': '@_ZTISt11logic_error', 'bad_alloc': '@_ZTISt9bad_alloc', 'bad_array_new_length': '@_ZTISt9bad_alloc',
          'bad_cast': '@_ZTISt8bad_cast', 'bad_function_call': '@_ZTISt17bad_function_call',
          'invalid_argument': '@_ZTISt16invalid_argument'}[k]
    throw_std(E, st, ti)


@rx(r'^std::(exception|logic_error|runtime_error|out_of_range|length_error|invalid_argument|bad_cast|bad_alloc|domain_error|range_error|overflow_error)::(~|\w+\()')
def m_stdexc(E, st, a, ins):
    return None


# ---- mathematics -----------------------------------------------------------------------------
def m_fabs(E, st, v):
    x = E.real(v)
    return x if E.decide(st, le0(-x)) else -x


@exact('fabs', 'fabsf', 'fabsl')
def m_fabs_(E, st, a, ins):
    return m_fabs(E, st, a[0])


def trig_arg(x):
    """split off a multiple of pi/2: returns (quarter turns mod 4, rest, sign normalised)"""
    k = x.d.get(((alg.PI_ID, 1),), 0)
    q = Q(k) * 2
    n = q.numerator // q.denominator if q.denominator == 1 else None
    if n is None:
        return 0, x
    rest = Poly({m: c for m, c in x.d.items() if m != ((alg.PI_ID, 1),)})
    return n % 4, rest


def lead_neg(x):
    if not x.d:
        return False
    return x.d[min(x.d)] < 0


def trig_sign(E, st, t, a, _):
    """record the sign of sin(a) when the range of a lies inside one half turn"""
    lo, hi = bounds(a, st.bnd)
    if lo is not None and hi is not None:
        if lo >= 0 and hi <= Q(31415, 10000):
            st.assume(lt0(-t) if lo > 0 else le0(-t))
        elif hi <= 0 and lo >= Q(-31415, 10000):
            st.assume(lt0(t) if hi < 0 else le0(t))
    return t


def trig_split(r):
    """r = u + v with both parts non-zero, for the addition theorems; None for an irreducible argument"""
    if len(r.d) > 1:
        if len(r.d) > 5:
            return None
        m = min(r.d)
        u = Poly({m: r.d[m]})
        return u, r - u
    (m, c), = r.d.items()
    p = abs(Q(c).numerator)
    if 2 <= p <= 4 and m:
        u = Poly({m: Q(c) / p})
        return u, r - u
    return None


def mk_sin(E, st, x):
    x = E.real(x)
    n, r = trig_arg(x)
    if n:
        c, s_ = mk_cos(E, st, r), mk_sin(E, st, r)
        return {1: c, 2: -s_, 3: -c}[n]
    if not r.d:
        return ZERO
    if lead_neg(r):
        return -mk_sin(E, st, -r)
    a = r.single()
    if a is not None and a.kind == 'fn':
        if a.name == 'asin':
            return a.args[0]
        if a.name == 'acos':
            return mk_sqrt(E, st, ONE - a.args[0] * a.args[0])
        if a.name == 'atan2':
            y, xx = a.args
            return y * inv(mk_sqrt(E, st, y * y + xx * xx))
        if a.name == 'atan':
            u = a.args[0]
            return u * inv(mk_sqrt(E, st, ONE + u * u))
    sp = trig_split(r)
    if sp:
        u, v = sp
        return mk_sin(E, st, u) * mk_cos(E, st, v) + mk_cos(E, st, u) * mk_sin(E, st, v)
    return trig_sign(E, st, fn('sin', [r], 'R', -1, 1), r, 0)


def mk_cos(E, st, x):
    x = E.real(x)
    n, r = trig_arg(x)
    if n:
        c, s_ = mk_cos(E, st, r), mk_sin(E, st, r)
        return {1: -s_, 2: -c, 3: s_}[n]
    if not r.d:
        return ONE
    if lead_neg(r):
        return mk_cos(E, st, -r)
    a = r.single()
    if a is not None and a.kind == 'fn':
        if a.name == 'acos':
            return a.args[0]
        if a.name == 'asin':
            return mk_sqrt(E, st, ONE - a.args[0] * a.args[0])
        if a.name == 'atan2':
            y, xx = a.args
            return xx * inv(mk_sqrt(E, st, y * y + xx * xx))
        if a.name == 'atan':
            u = a.args[0]
            return inv(mk_sqrt(E, st, ONE + u * u))
    sp = trig_split(r)
    if sp:
        u, v = sp
        return mk_cos(E, st, u) * mk_cos(E, st, v) - mk_sin(E, st, u) * mk_sin(E, st, v)
    return trig_sign(E, st, fn('cos', [r], 'R', -1, 1), r + PI * Q(1, 2), 0)


@exact('sin', 'sinf', 'sinl')
def m_sin(E, st, a, ins):
    return mk_sin(E, st, a[0])


@exact('cos', 'cosf', 'cosl')
def m_cos(E, st, a, ins):
    return mk_cos(E, st, a[0])


@exact('tan', 'tanf', 'tanl')
def m_tan(E, st, a, ins):
    return mk_sin(E, st, a[0]) * inv(mk_cos(E, st, a[0]))


def isqrt(v):
    import math
    if v < 0:
        return None
    v = Q(v)
    a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if a * a == v.numerator and b * b == v.denominator:
        return Q(a, b)
    return None


def common_square(p):
    """largest monomial m (with even exponents) with m^2 dividing p: returns (half-exponent monomial, quotient)"""
    if not p.d:
        return None
    com = None
    for m in p.d:
        d = dict(m)
        if com is None:
            com = {a: e for a, e in d.items()}
        else:
            for a in list(com):
                e = d.get(a, 0)
                x = com[a]
                com[a] = min(x, e) if (x > 0 or e > 0) and x >= 0 and e >= 0 else (max(x, e) if x < 0 and e < 0 else 0)
    half = {}
    for a, e in com.items():
        h = (abs(e) // 2) * (1 if e > 0 else -1)
        if h:
            half[a] = h
    if not half:
        return None
    hm = tuple(sorted(half.items()))
    sq = Poly({tuple((a, -2 * e) for a, e in hm): 1})
    return Poly({hm: 1}), p * sq


def mk_sqrt(E, st, x):
    x = alg.trig_reduce(E.real(x))
    if x.is_const():
        r = isqrt(x.cval())
        if r is not None:
            return C(r)
    outer = ONE
    neg = {}
    for m in x.d:
        for a, e in m:
            if e < 0:
                neg[a] = max(neg.get(a, 0), -e)
    if neg:
        for a, e in sorted(neg.items()):
            k = (e + 1) // 2
            at = Poly({((a, 1),): 1})
            x = x * Poly({((a, 2 * k),): 1})
            h = Poly({((a, -k),): 1})
            outer = outer * (h if k % 2 == 0 or E.decide(st, le0(-at)) else -h)
        x = alg.trig_reduce(x)
        if x.is_const():
            r = isqrt(x.cval())
            if r is not None:
                return outer * C(r)
    cs = common_square(x)
    if cs is not None:
        h, rest = cs
        rest = alg.trig_reduce(rest)
        outer = outer * (h if E.decide(st, le0(-h)) else -h)
        x = rest
        if x.is_const():
            r = isqrt(x.cval())
            if r is not None:
                return outer * C(r)
    # 1 - sin^2 / 1 - cos^2
    if len(x.d) == 2 and x.d.get((), None) == 1:
        (m, c), = [(m, c) for m, c in x.d.items() if m]
        if c == -1 and len(m) == 1 and m[0][1] == 2:
            a = alg._by_id[m[0][0]]
            if a.kind == 'fn' and a.name == 'cos':
                t = fn('sin', a.args, 'R', -1, 1)
                return outer * abs_trig(E, st, t, a.args[0], 'sin')
            if a.kind == 'fn' and a.name == 'sin':
                t = fn('cos', a.args, 'R', -1, 1)
                return outer * abs_trig(E, st, t, a.args[0], 'cos')
    # factor out rational square content
    if x.is_const() and x.cval() < 0:
        raise Unsupported('sqrt of negative')
    import math
    num, den = 0, 1
    for c in x.d.values():
        c = Q(c)
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    # pull out the largest square factors of num and den
    def sqf(n):
        r = 1
        k = 2
        while k * k <= n and k < 2000:
            while n % (k * k) == 0:
                n //= k * k
                r *= k
            k += 1
        t = math.isqrt(n)
        if t * t == n:
            r *= t
        return r
    f = Q(sqf(num), sqf(den) if sqf(den)**2 == den else 1) if num else Q(1)
    if f != 1:
        x = x * (1 / (f * f))
    return outer * C(f) * fn('sqrt', [x], 'R', 0, None)


def sign_trig(E, st, name, arg):
    """+1/-1/None sign (weak: >=0 / <=0) of sin/cos(arg) from the range of arg"""
    lo, hi = bounds(arg, st.bnd)
    if name == 'sin':
        if E.prove(st, f_and(le0(-arg), le(arg, PI))):
            return 1
        if E.prove(st, f_and(le0(arg), le(-PI, arg))):
            return -1
    else:
        if E.prove(st, f_and(le(-PI, arg * 2), le(arg * 2, PI))):
            return 1
        if E.prove(st, f_and(le(PI, arg * 2), le(arg * 2, PI * 3))):
            return -1
    return None


def abs_trig(E, st, t, arg, name):
    s_ = sign_trig(E, st, name, arg)
    if s_ is not None:
        return t if s_ > 0 else -t
    return t if E.decide(st, le0(-t)) else -t


@exact('sqrt', 'sqrtf', 'sqrtl')
def m_sqrt(E, st, a, ins):
    return mk_sqrt(E, st, a[0])


@exact('hypot', 'hypotf')
def m_hypot(E, st, a, ins):
    return mk_sqrt(E, st, E.real(a[0]) ** 2 + E.real(a[1]) ** 2)


def norm(p):
    p = alg.trig_reduce(p)
    return p


@exact('acos', 'acosf', 'acosl')
def m_acos(E, st, a, ins):
    x = norm(E.real(a[0]))
    return mk_acos(E, st, x)


def mk_acos(E, st, x):
    if x.is_const():
        v = x.cval()
        if v == 1:
            return ZERO
        if v == -1:
            return PI
        if v == 0:
            return PI * Q(1, 2)
    a = x.single()
    if a is not None and a.kind == 'fn' and a.name == 'cos':
        t = a.args[0]
        if E.prove(st, f_and(le0(-t), le(t, PI))):
            return t
        if E.prove(st, f_and(le0(t), le(-PI, t))):
            return -t
    if a is not None and a.kind == 'fn' and a.name == 'sin':
        t = a.args[0]
        if E.prove(st, f_and(le(-PI, t * 2), le(t * 2, PI))):
            return PI * Q(1, 2) - t
    n = (-x).single()
    if n is not None and n.kind == 'fn' and n.name in ('cos', 'sin'):
        return PI - mk_acos(E, st, -x)
    if lead_neg(x):
        return PI - mk_acos(E, st, -x)
    return fn('acos', [x], 'R', 0, Q(31415926535898, 10**13))


@exact('asin', 'asinf', 'asinl')
def m_asin(E, st, a, ins):
    x = norm(E.real(a[0]))
    return mk_asin(E, st, x)


def mk_asin(E, st, x):
    if x.is_const():
        v = x.cval()
        if v in (0, 1, -1):
            return PI * Q(v, 2)
    a = x.single()
    if a is not None and a.kind == 'fn' and a.name == 'sin':
        t = a.args[0]
        if E.prove(st, f_and(le(-PI, t * 2), le(t * 2, PI))):
            return t
    if a is not None and a.kind == 'fn' and a.name == 'cos':
        t = a.args[0]
        if E.prove(st, f_and(le0(-t), le(t, PI))):
            return PI * Q(1, 2) - t
    if lead_neg(x):
        return -mk_asin(E, st, -x)
    return fn('asin', [x], 'R')


def mono_gcd(ms):
    com = None
    for m in ms:
        d = dict(m)
        if com is None:
            com = d
        else:
            com = {a: min(e, d.get(a, 0)) if e > 0 else max(e, d.get(a, 0)) for a, e in com.items()
                   if a in d and (e > 0) == (d[a] > 0)}
    return com or {}


@exact('atan2', 'atan2f', 'atan2l')
def m_atan2(E, st, a, ins):
    y, x = norm(E.real(a[0])), norm(E.real(a[1]))
    # recognise rho*sin(t), rho*cos(t)
    if len(y.d) == 1 and len(x.d) == 1:
        (my, cy), = y.d.items()
        (mx, cx), = x.d.items()
        dy, dx = dict(my), dict(mx)
        for aid in dy:
            at = alg._by_id[aid]
            if at.kind == 'fn' and at.name == 'sin' and dy[aid] == 1:
                cid = fn('cos', at.args, 'R', -1, 1).single().id
                if dx.get(cid) == 1:
                    ry = tuple(sorted((k, e) for k, e in dy.items() if k != aid))
                    rx_ = tuple(sorted((k, e) for k, e in dx.items() if k != cid))
                    if ry == rx_ and abs(cy) == abs(cx):
                        rho = Poly({rx_: cx})
                        t = at.args[0]
                        if cy != cx:
                            t = -t
                        if positive(E, st, rho):
                            if E.prove(st, f_and(lt(-PI, t), le(t, PI))):
                                return t
                            if E.prove(st, f_and(lt(PI, t), le(t, PI * 3))):
                                return t - PI * 2
                            if E.prove(st, f_and(lt(-PI * 3, t), le(t, -PI))):
                                return t + PI * 2
    nz = False
    try:
        nz = E.prove(st, lt0(-(alg.trig_reduce(y * y + x * x))))
    except alg.TooBig:
        pass
    # strip a common positive factor
    g = mono_gcd(list(y.d) + list(x.d))
    for aid, e in list(g.items()):
        at = Poly({((aid, 1),): 1})
        if positive(E, st, at):
            f = Poly({((aid, -e),): 1})
            y, x = y * f, x * f
    import math
    num, den = 0, 1
    for c in list(y.d.values()) + list(x.d.values()):
        c = Q(c)
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    if num:
        f = Q(den, num)
        y, x = y * f, x * f
    if not y.d and x.d:
        if E.decide(st, lt0(-x)):
            return ZERO
        return PI
    if not nz:
        if E.decide(st, f_and(eq0(x), eq0(y))):
            return ZERO
    return fn('atan2', [y, x], 'R', -Q(31415926535898, 10**13), Q(31415926535898, 10**13))


def positive(E, st, p):
    if E.prove(st, lt0(-p)):
        return True
    # products of positive factors, sin/cos with known range
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not m:
            return c > 0
        sg = 1 if c > 0 else -1
        for aid, e in m:
            at = alg._by_id[aid]
            if e % 2 == 0 and e > 0 and False:
                continue
            if at.kind == 'fn' and at.name in ('sin', 'cos'):
                t = at.args[0]
                if at.name == 'sin' and E.prove(st, f_and(lt0(-t), lt(t, PI))):
                    continue
                if at.name == 'cos' and E.prove(st, f_and(lt(-PI, t * 2), lt(t * 2, PI))):
                    continue
                return False
            if not E.prove(st, lt0(-Poly({((aid, 1),): 1}))):
                return False
        return sg > 0
    return False


@exact('atan', 'atanf')
def m_atan(E, st, a, ins):
    return fn('atan', [norm(E.real(a[0]))], 'R', Q(-158, 100), Q(158, 100))


@exact('floor', 'floorf', 'floorl')
def m_floor(E, st, a, ins):
    return E.floor(E.real(a[0]))


@exact('ceil', 'ceilf')
def m_ceil(E, st, a, ins):
    return -E.floor(-E.real(a[0]))


@exact('trunc', 'truncf')
def m_trunc(E, st, a, ins):
    x = E.real(a[0])
    return E.floor(x) if E.decide(st, le0(-x)) else -E.floor(-x)


@exact('round', 'lround', 'roundf')
def m_round(E, st, a, ins):
    x = E.real(a[0])
    h = Q(1, 2)
    return E.floor(x + h) if E.decide(st, le0(-x)) else -E.floor(-x + h)


@exact('fmod', 'fmodf', 'fmodl')
def m_fmod(E, st, a, ins):
    return E.fmod(st, E.real(a[0]), E.real(a[1]))


@exact('modf')
def m_modf(E, st, a, ins):
    x = E.real(a[0])
    i = E.floor(x) if E.decide(st, le0(-x)) else -E.floor(-x)
    E.store(st, a[1], i, 8, 'f')
    return x - i


@exact('pow', 'powf', 'powl')
def m_pow(E, st, a, ins):
    x, y = E.real(a[0]), E.real(a[1])
    if y.is_const():
        v = Q(y.cval())
        if v.denominator == 1 and abs(v) <= 16:
            n = int(v)
            return x ** n if n >= 0 else inv(x ** (-n))
        if v == Q(1, 2):
            return mk_sqrt(E, st, x)
    return fn('pow', [x, y], 'R')


@exact('exp', 'expf')
def m_exp(E, st, a, ins):
    return fn('exp', [E.real(a[0])], 'R', 0, None)


@exact('log', 'logf')
def m_log(E, st, a, ins):
    return fn('log', [E.real(a[0])], 'R')


@exact('memcpy', 'memmove')
def m_memcpy(E, st, a, ins):
    E.memcpy(st, a[0], a[1], E.uns(st, a[2], 64))
    return a[0]


@exact('memset')
def m_memset(E, st, a, ins):
    E.memset(st, a[0], a[1], E.uns(st, a[2], 64))
    return a[0]


# ---- boost date_time: the Gregorian calendar (assumed: from_day_number inverts day_number on valid dates) ----
@rx(r'gregorian_calendar_base<.*>::(julian_)?day_number\(')
def m_day_number(E, st, a, ins):
    y, m, d = [E.uns(st, E.load(st, a[0].add(k), SX.IR.IntTy(16)), 16) for k in (0, 2, 4)]
    if not m.is_const():
        for k in range(1, 13):
            if E.decide(st, eq(m, C(k))):
                m = C(k)
                break
        else:
            raise PathEnd()
    mm = m.cval()
    q = (14 - mm) // 12
    yy = y + 4800 - q
    r = d + (153 * (mm + 12 * q - 3) + 2) // 5 + yy * 365 + idiv(yy, 4) - idiv(yy, 100) + idiv(yy, 400) - 32045
    E.days.append((r, y, m, d))
    return r


@rx(r'gregorian_calendar_base<.*>::from_day_number\(')
def m_from_day_number(E, st, a, ins):
    n = E.uns(st, a[0], 32)
    if n.is_const():
        z = n.cval() + 32044
        b = (4 * z + 3) // 146097
        c = z - (146097 * b) // 4
        d = (4 * c + 3) // 1461
        e = c - (1461 * d) // 4
        m = (5 * e + 2) // 153
        return C((100 * b + d - 4800 + m // 10) | (m + 3 - 12 * (m // 10)) << 16 | (e - (153 * m + 2) // 5 + 1) << 32)
    for r, y, m, d in E.days[::-1]:
        if not (n - r).d or E.prove(st, eq(n, r)):
            return y + m * (1 << 16) + d * (1 << 32)
    raise Unsupported('date of an unknown day number')


import strings  # noqa: E402,F401  (registers its contracts)
import files  # noqa: E402,F401
