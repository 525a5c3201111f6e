"""Symbolic execution / verification-condition generation over LLVM IR."""
import sys, time, struct, re
from fractions import Fraction as Q
import z3
import alg
from alg import (Poly, C, F, T, FF, ZERO, ONE, PI, fnot, f_and, f_or, fimp, le0, lt0, eq0, lt, le, eq, ite, idiv, imod,
                 bounds, fresh, fn, inv, Subst)
import irparse as IR

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """the tool cannot follow the code: the contract becomes undecided, never violated"""


class ForkOn(Exception):
    def __init__(s, f):
        s.f = f


class PathEnd(Exception):
    pass


class Throw(Exception):
    def __init__(s, ptr, ti):
        s.ptr, s.ti = ptr, ti


class _U:
    def __repr__(s):
        return 'undef'


UNDEF = _U()


class _HV:
    """a value the loop invariant says nothing about"""
    def __repr__(s):
        return 'HV'


HV = _HV()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off=ZERO):
        s.o, s.off = o, off if isinstance(off, Poly) else C(off)

    def __repr__(s):
        return f"&{s.o}+{s.off}"

    def __eq__(s, x):
        return isinstance(x, Ptr) and s.o == x.o and s.off == x.off

    def __hash__(s):
        return hash((s.o, s.off))

    def add(s, d):
        return Ptr(s.o, s.off + d)


NULL = Ptr(None, ZERO)


class FB:
    """floating value given by its bit pattern"""
    __slots__ = ('bits', 'w')

    def __init__(s, bits, w):
        s.bits, s.w = bits, w

    def __eq__(s, o):
        return isinstance(o, FB) and s.bits == o.bits and s.w == o.w

    def __hash__(s):
        return hash((s.bits, s.w))

    def __repr__(s):
        return f"FB{s.w}({s.bits})"


class FS:
    """inf / nan constants"""

    def __init__(s, d):
        s.d = d


class Agg:
    __slots__ = ('v',)

    def __init__(s, v):
        s.v = list(v)

    def __repr__(s):
        return f"Agg{s.v}"


class Byte:
    """k-th byte (little endian) of a stored value"""
    __slots__ = ('v', 'k', 'n', 't')

    def __init__(s, v, k, n, t):
        s.v, s.k, s.n, s.t = v, k, n, t


class Cell:
    __slots__ = ('n', 'v', 't')

    def __init__(s, n, v, t):
        s.n, s.v, s.t = n, v, t

    def __repr__(s):
        return f"<{s.n}:{s.v}>"


class Upd:
    """for all i in [lo,hi): address base+stride*i+delta holds cells[delta] (with var := i)"""
    __slots__ = ('var', 'lo', 'hi', 'base', 'stride', 'cells', 'objs', 'mat', 'span')

    def __init__(s, var, lo, hi, base, stride, cells, objs=None, span=None):
        s.var, s.lo, s.hi, s.base, s.stride, s.cells, s.objs = var, lo, hi, base, stride, cells, objs or {}
        s.span = span if span is not None else max(d + c.n for d, c in cells.items())
        s.mat = None


class MO:
    __slots__ = ('size', 'cells', 'ups', 'init', 'const', 'owner', 'freed', 'kind', 'rope', 'tag', 'al')

    def __init__(s, size, init='undef', kind='mem'):
        s.size, s.cells, s.ups, s.init, s.const, s.freed, s.kind = size, {}, [], init, False, False, kind
        s.rope, s.tag, s.owner = None, None, None

    def clone(s):
        m = MO(s.size, s.init, s.kind)
        m.cells, m.ups, m.const, m.freed, m.rope, m.tag = dict(s.cells), list(s.ups), s.const, s.freed, s.rope, s.tag
        return m


class Frame:
    __slots__ = ('f', 'blk', 'prev', 'ip', 'env', 'ret', 'iters', 'snaps', 'allocas', 'gen')

    def __init__(s, f):
        s.f = f
        s.blk = s.prev = None
        s.ip = 0
        s.env = {}
        s.ret = None
        s.iters = {}
        s.snaps = {}
        s.allocas = []
        s.gen = frozenset()

    def clone(s):
        g = Frame(s.f)
        g.blk, g.prev, g.ip, g.env, g.ret = s.blk, s.prev, s.ip, dict(s.env), s.ret
        g.iters, g.snaps, g.allocas, g.gen = dict(s.iters), dict(s.snaps), list(s.allocas), s.gen
        return g


_sid = [0]


class State:
    def __init__(s):
        s.frames = []
        s.mem = {}
        s.pc = []
        s.pcset = set()
        s.bnd = {}
        s.inputs = []
        s.exc = None
        s.caught = []
        s.ghost = {}
        s.notes = set()
        s.journal = None
        _sid[0] += 1
        s.id = _sid[0]

    def begin(s):
        """from here on the state can be put back by rollback()"""
        _sid[0] += 1
        s.id = _sid[0]
        s.journal = {}
        fr = s.frames[-1]
        return (dict(s.ghost) if s.ghost else None, len(s.inputs), len(s.caught), len(s.frames), fr, fr.blk, fr.ip)

    def rollback(s, mark):
        g, ni, nc, nf, fr, blk, ip = mark
        if len(s.frames) != nf or s.frames[-1] is not fr or fr.blk != blk or fr.ip != ip or len(s.caught) != nc:
            return False
        for o, m in s.journal.items():
            s.mem[o] = m
        s.ghost = g if g is not None else {}
        del s.inputs[ni:]
        s.journal = None
        return True

    def clone(s):
        n = State()
        n.frames = [f.clone() for f in s.frames]
        n.mem = dict(s.mem)
        n.pc, n.pcset, n.bnd = list(s.pc), set(s.pcset), dict(s.bnd)
        n.inputs, n.exc, n.caught, n.ghost, n.notes = list(s.inputs), s.exc, list(s.caught), dict(s.ghost), set(s.notes)
        _sid[0] += 1
        s.id = _sid[0]      # both lose ownership of shared objects
        return n

    # memory objects
    def w(s, o):
        m = s.mem[o]
        if m.owner != s.id:
            if s.journal is not None and o not in s.journal:
                s.journal[o] = m
            m = m.clone()
            m.owner = s.id
            s.mem[o] = m
        return m

    def kill(s, o):
        m = s.mem.pop(o, None)
        if m is not None and s.journal is not None and o not in s.journal:
            s.journal[o] = m

    def assume(s, f):
        if f.k == 'true':
            return
        if f.k == 'and':
            for x in f.a:
                s.assume(x)
            return
        if f in s.pcset:
            return
        s.pc.append(f)
        s.pcset.add(f)
        if f.k in ('le0', 'lt0'):
            p = f.a[0]
            ms = [(m, c) for m, c in p.d.items() if m]
            if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
                (m, c) = ms[0]
                a = m[0][0]
                k = p.cval()
                lo, hi = s.bnd.get(a, (None, None))
                isint = alg._by_id[a].sort == 'I'
                if c > 0:      # c*a + k <= 0
                    v = Q(-k) / c
                    if isint:
                        v = v.numerator // v.denominator
                    hi = v if hi is None else min(hi, v)
                else:
                    v = Q(k) / (-c)
                    if isint:
                        v = -((-v.numerator) // v.denominator)
                    lo = v if lo is None else max(lo, v)
                s.bnd[a] = (lo, hi)
        elif f.k == 'eq0':
            p = f.a[0]
            ms = [(m, c) for m, c in p.d.items() if m]
            if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
                v = Q(-p.cval()) / ms[0][1]
                v = v.numerator if v.denominator == 1 else v
                s.bnd[ms[0][0][0][0]] = (v, v)


class Solver:
    """incremental z3 solver synchronised with a path condition"""

    def __init__(s, timeout=1500):
        s.s = z3.Solver()
        s.timeout = timeout
        s.stack = []          # list of (formula, atoms added)
        s.known = set()
        s.n = 0
        s.time = 0.0

    def sync(s, pc):
        k = 0
        n = min(len(pc), len(s.stack))
        while k < n and (s.stack[k][0] is pc[k] or s.stack[k][0] == pc[k]):
            k += 1
        while len(s.stack) > k:
            _, added = s.stack.pop()
            s.known -= added
            s.s.pop()
        for f in pc[k:]:
            s.s.push()
            s._assert(f)

    def _assert(s, f):
        if huge(f):
            # left out: the solver's non-linear core does not respect its time limit on these (dropping a premise is sound)
            s.stack.append((f, set()))
            return
        added = s._axioms([f])
        s.s.add(alg.zf(f))
        s.stack.append((f, added))

    def _axioms(s, fs):
        bv = [x.a[0] for x in walk_forall(fs)]
        ats = [a for a in alg.collect_atoms(fs) if a.id not in s.known]
        added = {a.id for a in ats}
        s.known |= added
        for x in alg.axioms_for([a for a in ats if a not in bv], bv):
            s.s.add(x)
        return added

    def check(s, pc, extra, timeout=None, model=False):
        if any(huge(f) for f in extra):
            return ('unknown', None) if model else 'unknown'
        t0 = time.time()
        s.sync(pc)
        s.s.push()
        added = s._axioms(extra)
        for f in extra:
            s.s.add(alg.zf(f))
        s.s.set('timeout', timeout or s.timeout)
        r = s.s.check()
        m = s.s.model() if (model and r == z3.sat) else None
        s.s.pop()
        s.known -= added
        s.n += 1
        dt = time.time() - t0
        s.time += dt
        return (str(r), m) if model else str(r)


def huge(f):
    if f.k in ('and', 'or', 'not'):
        return any(huge(x) for x in f.a)
    return f.k in ('le0', 'lt0', 'eq0') and nonlinear(f) > 24


def walk_forall(fs):
    out = []
    st = list(fs)
    while st:
        x = st.pop()
        if isinstance(x, F):
            if x.k == 'forall':
                out.append(x)
            st.extend(y for y in x.a if isinstance(y, F))
    return out


# ---- constants of the code read as real numbers -----------------------------------------
_cc = {}


def real_const(fr, d):
    """a floating literal read as the simplest real number within about 2 ulp: short decimal, small fraction, multiple of pi"""
    key = (fr, d)
    if key in _cc:
        return _cc[key]
    _cc[key] = r = _real_const(fr, d)
    return r


PIS = (Q(31415926535897932384626433832795, 10**31), Q('3.14159265359'))   # pi, and the 12-digit pi inside boost::units' degree
INCOMPLETE = {'sin', 'cos', 'asin', 'acos', 'atan2', 'atan', 'exp', 'log', 'pow', 'fmod'}
TINY = {6.123233995736766e-17, 1.2246467991473532e-16, 1.8369701987210297e-16, 2.4492935982947064e-16}   # cos/sin of a rounded multiple of pi/2


def _real_const(fr, d):
    if fr == 0 or abs(d) in TINY:
        return ZERO
    if fr.denominator == 1 and abs(fr) < 10**17:
        return C(fr.numerator)
    rep = repr(d)
    digs = len(rep.lower().split('e')[0].replace('.', '').replace('-', '').lstrip('0'))
    if digs <= 15:
        return C(Q(rep))
    tol = abs(fr) * Q(1, 2**51)
    for mx in (1000, 10**6):
        c = fr.limit_denominator(mx)
        if c and abs(c - fr) <= tol:
            return C(c)
        for pi in PIS:
            for k in (1, -1):
                x = fr / (pi ** k)
                c = x.limit_denominator(mx)
                if c and abs(c - x) <= abs(x) * Q(1, 2**51):
                    return C(c) * (PI if k == 1 else inv(PI))
    # inverse of a short decimal
    iv = 1 / fr
    c = Q(repr(float(iv)))
    if len(repr(float(iv)).lower().split('e')[0].replace('.', '').replace('-', '').strip('0')) <= 15 and abs(1 / c - fr) <= tol:
        return C(1 / c)
    for pi in PIS:
        for k in (1, -1):
            x = fr / (pi ** k)
            for y, inverse in ((x, False), (1 / x, True)):
                s = '%.15g' % float(y)
                if len(s.lower().split('e')[0].replace('.', '').replace('-', '').strip('0')) <= 13:
                    c = Q(s)
                    if inverse:
                        c = 1 / c
                    if abs(c - x) <= abs(x) * Q(1, 2**50):
                        return C(c) * (PI if k == 1 else inv(PI))
    return C(Q(rep))


class Exec:
    def __init__(s, mod, models=None, demangle=None, budget=600.0, log=None):
        s.mod = mod
        s.sol = Solver()
        s.models = models or {}
        s.nobj = 0
        s.days = []
        s.globs = {}
        s.oblig = {}          # name -> dict(status, ...)
        s.reached = set()
        s.paths = 0
        s.steps = 0
        s.deadline = time.time() + budget
        s.mid = s.deadline - 0.4 * budget      # time left to fall back on a bounded run
        s.ends = []
        s.demangle = demangle or (lambda x: x)
        s.bounded = None      # note when a loop had to be unrolled with a bound
        s.maxunroll = 3
        s.log = log
        s.typeids = {}
        s.maxpaths = 20000
        s.libcalls = {}
        s.summaries = 0
        s.rcache = {}
        s.collect_only = False
        s.nosum = False
        s.loopnames, s.loopfails = [], {}
        s.alpha, s.tagval, s.tags, s.keys, s.predsets = {}, {}, {}, {}, {}     # strings.py
        s.scans = {}
        s.returns = 0         # paths on which the contract function returned

    # ---- decisions --------------------------------------------------------------------
    def decided(s, st, f, z=True):
        if f.k == 'true':
            return True
        if f.k == 'false':
            return False
        if f in st.pcset:
            return True
        nf = fnot(f)
        if nf in st.pcset:
            return False
        if f.k in ('le0', 'lt0', 'eq0'):
            lo, hi = bounds(f.a[0], st.bnd)
            if f.k == 'le0':
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            elif f.k == 'lt0':
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            else:
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return False
                if lo == 0 == hi:
                    return True
        elif f.k == 'and':
            vs = [s.decided(st, x, False) for x in f.a]
            if False in vs:
                return False
            if all(v is True for v in vs):
                return True
        elif f.k == 'or':
            vs = [s.decided(st, x, False) for x in f.a]
            if True in vs:
                return True
            if all(v is False for v in vs):
                return False
        elif f.k == 'not':
            v = s.decided(st, f.a[0], False)
            if v is not None:
                return not v
        if not z:
            return None
        big = nonlinear(f)
        if big:
            if lin_unsat(st.pc, nf):
                return True
            if lin_unsat(st.pc, f):
                return False
            if big > 24:
                return None
        if s.sol.check(st.pc, [nf]) == 'unsat':
            return True
        if s.sol.check(st.pc, [f]) == 'unsat':
            return False
        return None

    def decide(s, st, f):
        """decide or fork"""
        r = s.decided(st, f)
        if r is None:
            raise ForkOn(f)
        return r

    def prove(s, st, f):
        return s.decided(st, f) is True

    # ---- integers ---------------------------------------------------------------------
    def uns(s, st, p, w):
        M = 1 << w
        lo, hi = bounds(p, st.bnd)
        if lo is not None and hi is not None and lo >= 0 and hi < M:
            return p
        if lo is not None and hi is not None:
            k = lo // M
            if hi // M == k:
                return p - k * M
        if lo is not None and lo >= 0 and s.prove(st, lt(p, C(M))):
            return p
        if not (lo is not None and lo >= 0) and s.prove(st, f_and(le(ZERO, p), lt(p, C(M)))):
            return p
        if s.prove(st, f_and(lt(p, ZERO), le(C(-M), p))):
            return p + M
        return imod(p, M)

    def sig(s, st, p, w):
        H = 1 << (w - 1)
        M = 1 << w
        lo, hi = bounds(p, st.bnd)
        if lo is not None and hi is not None:
            k = (lo + H) // M
            if (hi + H) // M == k:
                return p - k * M
        if s.prove(st, f_and(le(C(-H), p), lt(p, C(H)))):
            return p
        if s.prove(st, f_and(le(C(H), p), lt(p, C(H + M)))):
            return p - M
        return imod(p + H, M) - H

    def digits(s, st, p, nbytes):
        """byte digits (little endian list of Poly) of the unsigned value p, or None"""
        out = [None] * nbytes
        if p.is_const():
            v = p.cval()
            return [C((v >> (8 * k)) & 255) for k in range(nbytes)]
        c0 = p.d.get((), 0)
        for m, c in p.d.items():
            if not m:
                continue
            if c <= 0 or (c & (c - 1)):
                return None
            t = c.bit_length() - 1
            k, r = divmod(t, 8)
            q = Poly({m: 1 << r})
            lo, hi = bounds(q, st.bnd)
            if k >= nbytes or lo is None or hi is None or lo < 0 or hi > 255 or (out[k] is not None):
                return None
            out[k] = q
        if c0 < 0 or c0 >= 1 << (8 * nbytes):
            return None
        for k in range(nbytes):
            b = (c0 >> (8 * k)) & 255
            if out[k] is None:
                out[k] = C(b)
            elif b:
                lo, hi = bounds(out[k] + b, st.bnd)
                if hi is None or hi > 255:
                    return None
                out[k] = out[k] + b
        return out

    def undigits(s, ds):
        r = ZERO
        for k, d in enumerate(ds):
            r = r + d * (1 << (8 * k))
        return r

    def byte_of(s, st, p, w, k):
        u = s.uns(st, p, w)
        ds = s.digits(st, u, (w + 7) // 8)
        if ds:
            return ds[k]
        return imod(idiv(u, 1 << (8 * k)), 256)

    # ---- memory -----------------------------------------------------------------------
    def new(s, st, size, init='undef', kind='mem'):
        s.nobj += 1
        m = MO(size if isinstance(size, Poly) else C(size), init, kind)
        m.owner = st.id
        st.mem[s.nobj] = m
        return s.nobj

    def glob(s, st, name):
        if name in s.mod.funcs or name in s.mod.decls:
            return Ptr(('fn', name))
        if name in s.mod.aliases:
            return s.const(st, s.mod.aliases[name], IR.PTR)
        o = ('g', name)
        if o not in st.mem:
            t, init, cst = s.mod.globals[name]
            m = MO(C(s.mod.size(t)), 'undef' if init is not None else 'extern')
            m.tag = name
            m.owner = st.id
            st.mem[o] = m
            if init is not None:
                s.init_global(st, m, 0, t, init)
            m.const = cst
        return Ptr(o)

    def init_global(s, st, m, off, t, v):
        t = s.mod.resolve(t)
        k = v[0]
        if k == 'zero':
            n = s.mod.size(t)
            s.zero_fill(m, off, n)
        elif k == 'bytes':
            for j, b in enumerate(v[1]):
                m.cells[off + j] = Cell(1, C(b), 'i')
        elif k == 'agg':
            if t.k in ('struct', 'pstruct'):
                _, offs = s.mod.fields(t)
                for (et, ev), o in zip(v[1], offs):
                    s.init_global(st, m, off + o, et, ev)
            else:
                es = s.mod.size(t.a)
                for j, (et, ev) in enumerate(v[1]):
                    s.init_global(st, m, off + j * es, et, ev)
        elif k == 'undef':
            pass
        else:
            val = s.const(st, v, t)
            m.cells[off] = Cell(s.mod.size(t), val, tk(t))

    def zero_fill(s, m, off, n):
        if n > 4096:
            m.init = 'zero'
            return
        j = 0
        while j < n:
            step = 8 if n - j >= 8 and (off + j) % 8 == 0 else 1
            m.cells[off + j] = Cell(step, ZERO, 'z')
            j += step

    def const(s, st, v, ty):
        k = v[0]
        if k == 'i':
            if ty.k == 'int' and ty.n == 1:
                return T if v[1] & 1 else FF
            return C(v[1])
        if k == 'f':
            return real_const(v[1], v[2])
        if k == 'fspecial':
            return FS(v[2] if len(v) > 2 else v[1])
        if k == 'g':
            return s.glob(st, v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return s.zero(ty)
        if k == 'agg':
            return Agg([s.const(st, e, t) for t, e in v[1]])
        if k == 'bytes':
            return Agg([C(b) for b in v[1]])
        if k == 'cgep':
            vals = [s.const(st, e, t) for t, e in v[2]]
            return s.gep(st, v[1], vals, [t for t, _ in v[2]])
        if k == 'ccast':
            x = s.const(st, v[3], v[2])
            if v[1] in ('bitcast', 'addrspacecast'):
                return x
            if v[1] == 'ptrtoint':
                return PInt(x)
            if v[1] == 'inttoptr':
                return Ptr(None, x)
            return x
        raise Unsupported('const ' + k)

    def zero(s, ty):
        ty = s.mod.resolve(ty)
        if ty.k == 'int':
            return FF if ty.n == 1 else ZERO
        if ty.k in ('double', 'float', 'x86_fp80'):
            return ZERO
        if ty.k == 'ptr':
            return NULL
        if ty.k in ('struct', 'pstruct'):
            return Agg([s.zero(t) for t in ty.a])
        if ty.k in ('arr', 'vec'):
            return Agg([s.zero(ty.a) for _ in range(ty.n)])
        raise Unsupported('zero ' + ty.k)

    def val(s, st, v, ty):
        if v[0] == 'l':
            r = st.frames[-1].env[v[1]]
            if r is HV:
                raise Unsupported('value not fixed by the loop invariant')
            return r
        return s.const(st, v, ty)

    def gep(s, st, sty, vals, tys):
        p = vals[0]
        if not isinstance(p, Ptr):
            raise Unsupported(f'gep on {p}')
        off = p.off
        t = sty
        for n, (ix, ity) in enumerate(zip(vals[1:], tys[1:])):
            if n == 0:
                off = off + s.sidx(st, ix, ity) * s.mod.size(t)
            else:
                t = s.mod.resolve(t)
                if t.k in ('struct', 'pstruct'):
                    _, offs = s.mod.fields(t)
                    f = ix.cval()
                    off = off + offs[f]
                    t = t.a[f]
                elif t.k in ('arr', 'vec'):
                    t = t.a
                    off = off + s.sidx(st, ix, ity) * s.mod.size(t)
                else:
                    raise Unsupported('gep into ' + t.k)
        return Ptr(p.o, off)

    def sidx(s, st, ix, ity):
        if isinstance(ix, F):
            ix = ite(ix, C(-1), ZERO)
        if isinstance(ix, PInt):
            raise Unsupported('pointer as index')
        if not isinstance(ix, Poly):
            raise Unsupported(f'index {ix}')
        return s.sig(st, ix, ity.n)

    def coff(s, p):
        if p.off.is_const():
            return p.off.cval()
        return None

    def obj(s, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported(f'deref {p}')
        if p.o is None:
            raise Unsupported('null dereference')
        if isinstance(p.o, tuple) and p.o[0] == 'fn':
            raise Unsupported('function deref')
        m = st.mem.get(p.o)
        if m is None or m.freed:
            raise Unsupported('use after free')
        return m

    def store(s, st, p, v, n, t):
        m = s.obj(st, p)
        if m.kind == 'str':
            return s.str_store(st, p, v, n)
        if m.const:
            raise Unsupported('store to constant')
        m = s.w_(st, p.o)
        o = s.coff(p)
        if o is None or m.ups:
            o2 = s.resolve_off(st, m, p.off, n)
            if o is None and o2 is not None:
                o = o2
        if o is None or m.ups:
            m.ups.append(Upd(None, ZERO, ONE, p.off, 0, {0: Cell(n, v, t)}))
            return
        s.put(st, m, o, n, v, t)

    def resolve_off(s, st, m, off, n):
        return None

    def w_(s, st, o):
        return st.w(o)

    def put(s, st, m, o, n, v, t):
        c = m.cells.get(o)
        if c is not None and c.n == n:
            m.cells[o] = Cell(n, v, t)
            return
        # split overlapping cells into bytes
        for q in range(o - 31, o + n):
            c = m.cells.get(q)
            if c is not None and q + c.n > o and q < o + n and (c.t != 'adt' or q == o):
                del m.cells[q]
                if q < o or q + c.n > o + n:
                    for k in range(c.n):
                        if not (o <= q + k < o + n):
                            m.cells[q + k] = Cell(1, Byte(c.v, k, c.n, c.t), 'b')
        m.cells[o] = Cell(n, v, t)

    def load(s, st, p, ty):
        ty = s.mod.resolve(ty)
        if ty.k in ('struct', 'pstruct'):
            _, offs = s.mod.fields(ty)
            return Agg([s.load(st, p.add(o), t) for o, t in zip(offs, ty.a)])
        if ty.k in ('arr', 'vec'):
            es = s.mod.size(ty.a)
            return Agg([s.load(st, p.add(k * es), ty.a) for k in range(ty.n)])
        n = s.mod.size(ty)
        m = s.obj(st, p)
        if m.kind == 'str':
            return s.str_load(st, p, n, ty)
        o = s.coff(p)
        if m.ups:
            c = s.find_upd(st, p, n)
            if c is not None:
                return s.as_type(st, c.v, c.n, c.t, ty)
            if o is None:
                return s.sym_load(st, m, p, n, ty)
        if o is None:
            return s.sym_load(st, m, p, n, ty)
        return s.load_cells(st, m, o, n, ty)

    def sym_load(s, st, m, p, n, ty):
        if isinstance(m.init, tuple) and m.init[0] == 'arr' and not m.cells:
            # bytes of a symbolic array object
            ds = [alg.select(m.init[1], p.off + k) for k in range(n)]
            return s.as_type(st, s.undigits(ds), n, 'i', ty)
        # concrete table indexed symbolically: case split over the cells of the right size
        offs = sorted(o for o, c in m.cells.items() if c.n == n)
        for o in offs:
            if s.decide(st, eq(p.off, C(o))):
                return s.load_cells(st, m, o, n, ty)
        raise Unsupported('symbolic load')

    def load_cells(s, st, m, o, n, ty):
        c = m.cells.get(o)
        if c is not None and c.n == n and c.t != 'b':
            return s.as_type(st, c.v, n, c.t, ty)
        bs = []
        for k in range(n):
            bs.append(s.byte_at(st, m, o + k))
        b0 = bs[0]
        if isinstance(b0, Byte) and b0.k == 0 and b0.n == n and all(
                isinstance(b, Byte) and b.v is b0.v and b.k == j for j, b in enumerate(bs)):
            return s.as_type(st, b0.v, n, b0.t, ty)
        if all(b is UNDEF for b in bs):
            return UNDEF
        ds = []
        for b in bs:
            if isinstance(b, Poly):
                ds.append(b)
            elif b is UNDEF:
                if ty.k == 'int':
                    ds.append(fresh('undefbyte', 'I', 0, 255))
                else:
                    return UNDEF
            else:
                ds.append(s.byte_val(st, b))
        return s.as_type(st, s.undigits(ds), n, 'i', ty)

    def byte_val(s, st, b):
        """numeric value of a Byte reference"""
        v = b.v
        if b.t == 'z':
            return ZERO
        if v is UNDEF:
            return fresh('undefbyte', 'I', 0, 255)
        if b.t == 'f':
            v = s.bits_of(v, b.n * 8)
        if isinstance(v, F):
            v = ite(v, ONE, ZERO)
        if isinstance(v, Poly):
            return s.byte_of(st, v, b.n * 8, b.k)
        raise Unsupported(f'byte of {v}')

    def byte_at(s, st, m, o):
        c = m.cells.get(o)
        if c is not None:
            if c.t == 'b':
                return c.v
            if c.n == 1:
                if c.t in ('i', 'z') and isinstance(c.v, Poly):
                    return s.uns(st, c.v, 8)
                return Byte(c.v, 0, 1, c.t)
            return Byte(c.v, 0, c.n, c.t)
        for q in range(o - 1, o - 33, -1):
            c = m.cells.get(q)
            if c is not None:
                if q + c.n > o:
                    if c.t == 'b':
                        return c.v
                    return Byte(c.v, o - q, c.n, c.t)
                if c.n > 1 or c.t == 'b':
                    continue
        if m.init == 'zero':
            return ZERO
        if isinstance(m.init, tuple) and m.init[0] == 'arr':
            return alg.select(m.init[1], C(o))
        return UNDEF

    def bits_of(s, v, w):
        if isinstance(v, FB):
            return v.bits
        if isinstance(v, Poly):
            if not v.d:
                return ZERO
            if v.is_const():
                f = float(v.cval())
                return C(int.from_bytes(struct.pack('>d' if w == 64 else '>f', f), 'big'))
            return fn(f'bits{w}', [v], 'I', 0, (1 << w) - 1)
        raise Unsupported(f'bits of {v}')

    def as_type(s, st, v, n, t, ty):
        if v is UNDEF:
            return UNDEF
        if t == 'hv':
            raise Unsupported('value not fixed by the loop invariant')
        if t == 'z':
            return s.zero(ty)
        k = ty.k
        if t == 'i':
            if k == 'int':
                if ty.n == 1:
                    return v if isinstance(v, F) else s.to_bool(st, v)
                if isinstance(v, F):
                    return ite(v, ONE, ZERO)
                if ty.n < 8 * n and isinstance(v, Poly):
                    return imod(v, 1 << ty.n)
                return v
            if k in ('double', 'float'):
                return s.real_of_bits(st, v, 8 * n)
            if k == 'ptr':
                if isinstance(v, PInt):
                    return v.p
                if isinstance(v, Poly) and not v.d:
                    return NULL
                if isinstance(v, Poly) and v.is_const():
                    return Ptr(None, v)
        elif t == 'f':
            if k in ('double', 'float', 'x86_fp80'):
                return v
            if k == 'int':
                return s.bits_of(v, 8 * n)
        elif t == 'p':
            if k == 'ptr':
                return v
            if k == 'int' and n == 8:
                return PInt(v) if not (v.o is None and v.off.is_const()) else v.off
        elif t == 'agg':
            return v
        raise Unsupported(f'load {t} as {ty}')

    def real_of_bits(s, st, v, w):
        if isinstance(v, PInt):
            raise Unsupported('ptr as real')
        a = v.single()
        if a is not None and a.kind == 'fn' and a.name == f'bits{w}':
            return a.args[0]
        if v.is_const():
            x = v.cval() % (1 << w)
            d = struct.unpack('>d' if w == 64 else '>f', x.to_bytes(w // 8, 'big'))[0]
            if d == d and abs(d) != float('inf'):
                return real_const(Q(d), d) if x else ZERO
        return FB(s.uns(st, v, w), w)

    def real(s, v):
        """a floating value as a real polynomial"""
        if isinstance(v, Poly):
            return v
        if isinstance(v, FB):
            return fn(f'real{v.w}', [v.bits], 'R')
        if v is UNDEF:
            raise Unsupported('undef real')
        raise Unsupported(f'real of {v}')

    def find_upd(s, st, p, n):
        """look through symbolic updates, newest first; None: not covered (fall to base cells)"""
        m = st.mem[p.o]
        for u in reversed(m.ups):
            if u.var is None:
                d = p.off - u.base
                if d.is_const():
                    dv = d.cval()
                    if dv in u.cells:
                        c = u.cells[dv]
                        if c.n == n:
                            return c
                        raise Unsupported('partial symbolic load')
                    if all(dv + n <= q or dv >= q + c.n for q, c in u.cells.items()):
                        continue
                    raise Unsupported('partial symbolic load')
                # disjoint?
                for q, c in u.cells.items():
                    if s.decide(st, f_or(le(p.off + n, u.base + q), le(u.base + q + c.n, p.off))):
                        continue
                    if s.decide(st, eq(p.off, u.base + q)) and c.n == n:
                        return c
                    raise Unsupported('overlap symbolic load')
                continue
            r = s.upd_index(st, u, p.off, n)
            if r is None:
                continue
            k, delta = r
            s.materialize(st, p.o, u, k)
            # after materialization a point update holds the element
            sub = Subst({u.var.id: k})
            c = u.cells.get(delta)
            if c is None or c.n != n:
                if u.objs:
                    raise Unsupported('partial comprehension load')
                m2 = MO(C(u.stride))
                m2.cells = {d: Cell(c.n, s.sub_val(st, c.v, sub, {}), c.t) for d, c in u.cells.items()}
                m2.init = None
                bs = [s.byte_at(st, m2, delta + i) for i in range(n)]
                if any(b is UNDEF for b in bs):
                    raise Unsupported('partial comprehension load')
                return Cell(n, s.undigits([b if isinstance(b, Poly) else s.byte_val(st, b) for b in bs]), 'i')
            if u.objs:
                m = st.mem[p.o]
                return st.mem[p.o].ups[-1].cells[delta]
            return Cell(c.n, s.sub_val(st, c.v, sub, {}), c.t)
        return None

    def upd_index(s, st, u, off, n):
        """(index, delta) when off lies in the update, None when provably outside"""
        d = off - u.base
        # provably outside the whole block?
        for delta, c in u.cells.items():
            e = d - delta
            if u.stride and all(k % u.stride == 0 for k in e.d.values()):
                k = Poly({m: x // u.stride for m, x in e.d.items()})
                if s.decide(st, f_and(le(u.lo, k), lt(k, u.hi))):
                    return k, delta
                return None
        tot_lo = u.base + u.lo * u.stride
        tot_hi = u.base + u.hi * u.stride
        if s.decided(st, f_or(le(off + n, tot_lo), le(tot_hi, off))) is True:
            return None
        # constant residue that hits no cell
        e = d
        res = e.d.get((), 0)
        if u.stride and all(k % u.stride == 0 for m, k in e.d.items() if m):
            r = res % u.stride
            if all(r + n <= q or r >= q + c.n for q, c in u.cells.items()):
                return None
            if r + n <= u.stride:
                k = Poly({m: x // u.stride for m, x in (e - r).d.items()})
                if s.decide(st, f_and(le(u.lo, k), lt(k, u.hi))):
                    return k, r
                return None
        # symbolic division
        if u.stride and len(u.cells) == 1:
            (delta, c), = u.cells.items()
            e = d - delta
            k = idiv(e, u.stride)
            if s.decide(st, eq(e, k * u.stride)):
                if s.decide(st, f_and(le(u.lo, k), lt(k, u.hi))):
                    return k, delta
                return None
        raise Unsupported('comprehension index')

    def materialize(s, st, oid, u, k):
        """the element k of a comprehension with objects of its own, as a point update"""
        if not u.objs:
            return
        sub = Subst({u.var.id: k})
        mp = {}
        for o in u.objs:
            s.nobj += 1
            mp[o] = s.nobj
        made = {}
        for o, mo in u.objs.items():
            n = mo.clone()
            n.size = sub.poly(mo.size)
            n.cells = {q: Cell(c.n, s.sub_val(st, c.v, sub, mp), c.t) for q, c in mo.cells.items()}
            n.ups = [s.sub_upd(st, x, sub, mp) for x in mo.ups]
            if mo.rope is not None:
                n.rope = s.sub_rope(st, mo.rope, sub)
                s.revive(st, n.rope)
            n.owner = None
            st.mem[mp[o]] = n
            made[mp[o]] = n
        cells = {d: Cell(c.n, s.sub_val(st, c.v, sub, mp), c.t) for d, c in u.cells.items()}
        x = Upd(None, ZERO, ONE, u.base + k * u.stride, 0, cells)
        x.mat = made
        st.w(oid).ups.append(x)

    def sub_upd(s, st, u, sub, mp):
        cells = {d: Cell(c.n, s.sub_val(st, c.v, sub, mp), c.t) for d, c in u.cells.items()}
        objs = {}
        for o, mo in u.objs.items():
            n = mo.clone()
            n.size = sub.poly(mo.size)
            n.cells = {q: Cell(c.n, s.sub_val(st, c.v, sub, mp), c.t) for q, c in mo.cells.items()}
            n.ups = [s.sub_upd(st, x, sub, mp) for x in mo.ups]
            if mo.rope is not None:
                n.rope = s.sub_rope(st, mo.rope, sub)
            objs[o] = n
        return Upd(u.var, sub.poly(u.lo), sub.poly(u.hi), sub.poly(u.base), u.stride, cells, objs, u.span)

    def sub_val(s, st, v, sub, mp):
        if isinstance(v, Poly):
            return sub.poly(v)
        if isinstance(v, F):
            return sub.form(v)
        if isinstance(v, Ptr):
            return Ptr(mp.get(v.o, v.o), sub.poly(v.off))
        if isinstance(v, FB):
            return FB(sub.poly(v.bits), v.w)
        if isinstance(v, PInt):
            return PInt(s.sub_val(st, v.p, sub, mp))
        if isinstance(v, Agg):
            return Agg([s.sub_val(st, x, sub, mp) for x in v.v])
        if isinstance(v, Byte):
            return Byte(s.sub_val(st, v.v, sub, mp), v.k, v.n, v.t)
        if hasattr(v, 'subst'):
            return v.subst(s, st, sub, mp)
        return v

    # strings: filled in by strings.py
    def str_store(s, st, p, v, n):
        raise Unsupported('string store')

    def str_load(s, st, p, n, ty):
        raise Unsupported('string load')

    def sub_rope(s, st, r, sub):
        raise Unsupported('rope')

    def memcpy(s, st, d, q, n):
        """n: Poly"""
        if n.is_const() and n.cval() == 0:
            return
        if not n.is_const():
            return s.memcpy_sym(st, d, q, n)
        n = n.cval()
        md, mq = s.obj(st, d), s.obj(st, q)
        if md.kind == 'str' or mq.kind == 'str':
            return s.memcpy_str(st, d, q, C(n))
        od, oq = s.coff(d), s.coff(q)
        if od is None or oq is None or md.ups or mq.ups:
            if n in (1, 2, 4, 8):
                t = IR.IntTy(8 * n)
                # raw typed copy
                c = s.raw_load(st, q, n)
                if c is not None:
                    return s.store(st, d, c.v, n, c.t)
                return s.store(st, d, s.load(st, q, t), n, 'i')
            for k in range(0, n, 8):
                s.memcpy(st, d.add(k), q.add(k), C(min(8, n - k)))
            return
        md = st.w(d.o)
        mq = st.mem[q.o]
        src = {}
        k = 0
        items = []
        while k < n:
            c = mq.cells.get(oq + k)
            if c is not None and k + c.n <= n and c.t != 'b':
                items.append((k, c))
                k += c.n
            else:
                b = s.byte_at(st, mq, oq + k)
                if isinstance(b, Poly):
                    items.append((k, Cell(1, b, 'i')))
                elif b is UNDEF:
                    items.append((k, None))
                else:
                    items.append((k, Cell(1, b, 'b')))
                k += 1
        for k, c in items:
            if c is None:
                # undefined byte: drop what is there
                if any((od + k) >= x and (od + k) < x + md.cells[x].n for x in range(od + k - 31, od + k + 1) if x in md.cells):
                    s.put(st, md, od + k, 1, UNDEF, 'i')
            else:
                s.put(st, md, od + k, c.n, c.v, c.t)

    def raw_load(s, st, p, n):
        m = st.mem[p.o]
        if m.ups:
            c = s.find_upd(st, p, n)
            if c is not None:
                return c
        o = s.coff(p)
        if o is not None:
            c = m.cells.get(o)
            if c is not None and c.n == n and c.t != 'b':
                return c
        return None

    def memcpy_sym(s, st, d, q, n):
        raise Unsupported('memcpy of symbolic length')

    def memcpy_str(s, st, d, q, n):
        raise Unsupported('memcpy str')

    def memset(s, st, d, b, n):
        if not n.is_const():
            return s.memset_sym(st, d, b, n)
        n = n.cval()
        if n == 0:
            return
        m = s.obj(st, d)
        if m.kind == 'str':
            return s.memset_str(st, d, b, C(n))
        o = s.coff(d)
        if o is None or m.ups:
            for k in range(n):
                s.store(st, d.add(k), b, 1, 'i')
            return
        m = st.w(d.o)
        if isinstance(b, Poly) and not b.d:
            k = 0
            while k < n:
                step = 8 if n - k >= 8 and (o + k) % 8 == 0 else 4 if n - k >= 4 and (o + k) % 4 == 0 else 1
                s.put(st, m, o + k, step, ZERO, 'z')
                k += step
        else:
            for k in range(n):
                s.put(st, m, o + k, 1, b, 'i')

    def memset_sym(s, st, d, b, n):
        raise Unsupported('memset of symbolic length')

    def memset_str(s, st, d, b, n):
        raise Unsupported('memset str')

    # ---- booleans ----------------------------------------------------------------------
    def to_bool(s, st, v):
        if isinstance(v, F):
            return v
        if isinstance(v, Poly):
            return eq(imod(v, 2), ONE)
        raise Unsupported(f'bool {v}')

    # ---- running ------------------------------------------------------------------------
    def run_contract(s, fname):
        f = s.mod.funcs['@' + fname]
        st = State()
        s.enter(st, f, [], None)
        s.explore([st], None)

    def enter(s, st, f, args, ret):
        IR.materialize(f)
        fr = Frame(f)
        fr.ret = ret
        for (t, n, at), v in zip(f.params, args):
            fr.env[n] = v
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Unsupported('recursion')
        fr.blk = f.order[0]
        fr.ip = 0

    def explore(s, work, stop):
        """run states to their ends. stop(state, dst) -> tag when a jump must be intercepted (loop summaries)."""
        out = []
        work = list(work)
        while work:
            st = work.pop()
            try:
                while True:
                    if time.time() > (s.mid if s.summaries else s.deadline):
                        raise Unsupported('time budget')
                    pre = None
                    r = s.step(st, stop, out, work)
                    if r is not None:
                        break
            except PathEnd:
                s.paths += 1
                if s.paths > s.maxpaths:
                    raise Unsupported('too many paths')
        return out

    def step(s, st, stop, out, work):
        fr = st.frames[-1]
        blk = fr.f.blocks[fr.blk]
        ins = blk.ins[fr.ip]
        s.steps += 1
        op = ins.op
        try:
            h = getattr(s, 'i_' + op)
        except AttributeError:
            raise Unsupported('instruction ' + op)
        mark = st.begin() if op in ('call', 'invoke') or op in FORKY else None
        try:
            try:
                return h(st, fr, ins, stop, out, work)
            except Throw as e:
                return s.unwind(st, e.ptr, e.ti, stop, out, work)
        except ForkOn as e:
            if mark is None or not st.rollback(mark):
                raise Unsupported('fork in ' + op)
            if __import__('os').environ.get('LOOPDBG'):
                import traceback; print('LOOP fork', op, ins.x.get('callee',''), str(e.f)[:200], traceback.format_exc()[-900:].replace('\n',' / '))
            return s.fork(st, e.f, stop, out, work)

    def fork(s, pre, f, stop, out, work):
        a = pre
        b = pre.clone()
        a.assume(f)
        b.assume(fnot(f))
        work.append(b)
        work.append(a)
        return 'forked'

    # jumps
    def jump(s, st, dst, stop, out, work):
        fr = st.frames[-1]
        src = fr.blk
        if stop is not None:
            tag = stop(st, len(st.frames), src, dst)
            if tag:
                out.append((tag, st, src, dst))
                return 'stopped'
        L = IR.loops(fr.f)
        for h in list(fr.iters):
            if not isinstance(h, tuple) and h in L and dst not in L[h]:
                fr.iters.pop(h, None)
                fr.iters.pop(('sym', h), None)
                fr.snaps.pop(h, None)
                fr.snaps.pop(('first', h), None)
        s.set_block(st, fr, dst)
        if dst in L:
            n = fr.iters.get(dst, 0) + 1
            fr.iters[dst] = n
            if (len(st.frames), dst) in fr.gen:
                pass
            elif n > 50 and __import__('os').environ.get('LOOPDBG'):
                print('LONG', [str(x) for x in st.pc][-14:], {k:str(fr.env[k]) for k in [p.res for p in fr.f.blocks[dst].phis]}); raise Unsupported('long')
            elif n > 2000:
                raise Unsupported('loop runs too long in '+fr.f.name[:60]+' '+dst)
            elif n > 4:
                fr.snaps.pop(dst, None)
            else:
                snap = st.clone()
                fr = st.frames[-1]
                fr.snaps[dst] = snap
                if n == 1:
                    fr.snaps[('first', dst)] = snap
        return None

    def set_block(s, st, fr, dst):
        b = fr.f.blocks[dst]
        src = fr.blk
        vals = []
        for ph in b.phis:
            for v, lab in ph.x['inc']:
                if lab == src:
                    vals.append((ph.res, s.val(st, v, ph.ty)))
                    break
            else:
                raise Unsupported('phi')
        for r, v in vals:
            fr.env[r] = v
        fr.prev, fr.blk, fr.ip = src, dst, 0

    # ---- exceptions ---------------------------------------------------------------------
    def typeid(s, name):
        return s.typeids.setdefault(name, len(s.typeids) + 1)

    def ti_bases(s, st, name):
        """direct bases of a typeinfo symbol"""
        import exctypes
        if name in exctypes.BASES:
            return exctypes.BASES[name]
        g = s.mod.globals.get(name)
        out = []
        if g and g[1] is not None and g[1][0] == 'agg':
            for t, v in g[1][1][2:]:
                if v[0] == 'g':
                    out.append(v[1])
                elif v[0] == 'cgep':
                    pass
        return out

    def ti_isa(s, st, name, base):
        if name == base:
            return True
        return any(s.ti_isa(st, b, base) for b in s.ti_bases(st, name))

    def unwind(s, st, ptr, ti, stop, out, work):
        """current instruction (in the top frame) throws"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk].ins[fr.ip]
            if ins.op == 'invoke':
                lab = ins.x['dst'][1]
                lp = [i for i in fr.f.blocks[lab].ins if i.op == 'landingpad'][0]
                sel = None
                for w, cv in lp.x['clauses']:
                    if w == 'catch':
                        if cv[0] == 'null':
                            sel = s.typeid('...')
                            break
                        if s.ti_isa(st, ti, cv[1]):
                            sel = s.typeid(cv[1])
                            break
                if sel is None and lp.x['cleanup']:
                    sel = 0
                if sel is not None:
                    st.exc = (ptr, ti, sel)
                    return s.jump(st, lab, stop, out, work)
            if stop is not None:
                tag = stop(st, len(st.frames), fr.blk, None)
                if tag:
                    st.ghost['unwinding'] = (ptr, ti)
                    out.append((tag, st, None, None))
                    return 'stopped'
            s.pop_frame(st)
        s.uncaught(st, ti)
        raise PathEnd()

    def uncaught(s, st, ti):
        s.obligation(st, 'no uncaught exception', FF, info='uncaught ' + s.demangle(ti[1:]))

    def pop_frame(s, st):
        fr = st.frames.pop()
        for o in fr.allocas:
            st.mem.pop(o, None)
        return fr

    # ---- obligations ---------------------------------------------------------------------
    def obligation(s, st, name, f, real=None, info=None):
        if s.collect_only:
            return
        ob = s.oblig.setdefault(name, {'n': 0, 'ok': 0, 'fail': [], 'unk': [], 'backends': {}})
        ob['n'] += 1
        t0 = time.time()
        be = None
        r = None
        if real is not None:
            a, b = real
            if alg.real_zero(a - b):
                r, be = True, 'polynomial-identity'
        if r is None:
            v = s.decided(st, f, False)
            if v is True:
                r, be = True, 'interval'
        model = None
        if r is None and nonlinear(f) and lin_unsat(st.pc, fnot(f)):
            r, be = True, 'z3'
        if r is None:
            res, model = s.sol.check(st.pc, [fnot(f)], timeout=4000, model=True)
            if res == 'unsat':
                r, be = True, 'z3'
            elif res == 'sat':
                r = False
            else:
                res2, model = fresh_check(st.pc, [fnot(f)], 12000)
                if res2 == 'unsat':
                    r, be = True, 'z3'
                elif res2 == 'sat':
                    r = False
                else:
                    if cvc5_unsat(st.pc, [fnot(f)], 10):
                        r, be = True, 'cvc5'
        if r is False and 'uf' in st.notes or r is False and any(huge(x) for x in st.pc) or r is False and any(a.kind == 'fn' and a.name in INCOMPLETE for a in alg.collect_atoms([f] + list(st.pc))):
            # the solver knows these functions only by a few axioms: its model is a candidate to replay, not a refutation
            if 'forgot' in st.notes:
                raise Unsupported('a loop summary without the text a later obligation is about')
            if len(ob['unk']) < 4:
                ob['unk'].append({'info': 'candidate counterexample modulo axiomatised functions', 'tape': s.tape(st, model)})
            return
        if r is True:
            ob['ok'] += 1
            ob['backends'][be] = ob['backends'].get(be, 0) + 1
            st.assume(f)
        elif r is False:
            if len(ob['fail']) < 4:
                ob['fail'].append({'tape': s.tape(st, model), 'info': info, 'pc': len(st.pc), 'notes': sorted(st.notes)})
        else:
            if 'forgot' in st.notes:
                raise Unsupported('a loop summary without the text a later obligation is about')
            if len(ob['unk']) < 4:
                ob['unk'].append({'info': info or 'solver gave up'})

    def tape(s, st, model):
        out = []
        for kind, name, v in st.inputs:
            try:
                out.append({'kind': kind, 'name': name, 'value': s.clamp(st, kind, v, s.eval_input(kind, v, model))})
            except Exception as e:
                out.append({'kind': kind, 'name': name, 'value': None})
        return out

    def clamp(s, st, kind, v, x):
        if kind in ('real', 'int'):        # inputs the query does not mention still have to lie in their range
            lo, hi = bounds(v, st.bnd)
            if lo is not None and x < lo:
                x = lo
            if hi is not None and x > hi:
                x = hi
            x = float(x) if kind == 'real' else int(x)
        return x

    def eval_input(s, kind, v, model):
        if kind in ('real', 'int', 'bits'):
            x = model.eval(alg.zp(v), model_completion=True)
            if kind == 'real':
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                if z3.is_int_value(x):
                    return float(x.as_long())
                return float(x.numerator_as_long()) / float(x.denominator_as_long())
            return x.as_long()
        if kind == 'str':
            return s.eval_str(v, model)
        return None

    def eval_str(s, v, model):
        name, ln = v
        n = model.eval(alg.zp(ln), model_completion=True).as_long()
        n = min(n, 1600000)
        a = alg.z_arr(name)
        out = [model.eval(z3.Select(a, k), model_completion=True).as_long() % 256 for k in range(min(n, 6000))]
        return out + [out[-1]] * (n - len(out))

    # ---- instructions --------------------------------------------------------------------
    def nxt(s, fr):
        fr.ip += 1

    def setr(s, fr, ins, v):
        if ins.res is not None:
            fr.env[ins.res] = v
        fr.ip += 1

    def i_ret(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.ty) if ins.a else None
        if stop is not None and len(st.frames) > 0:
            tag = stop(st, len(st.frames), fr.blk, None)
            if tag:
                out.append((tag, st, None, None))
                return 'stopped'
        s.do_return(st, v, stop, out, work)
        if not st.frames:
            s.reached.add('end')
            if s.returns or s.sol.check(st.pc, []) != 'unsat':
                s.returns += 1
            raise PathEnd()
        return st.ghost.pop('jumped', None)

    def do_return(s, st, v, stop, out, work):
        s.pop_frame(st)
        if not st.frames:
            return
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.blk].ins[fr.ip]
        if ins.res is not None:
            fr.env[ins.res] = v
        if ins.op == 'invoke':
            r = s.jump(st, ins.x['dst'][0], stop, out, work)
            if r is not None:
                st.ghost['jumped'] = r
        else:
            fr.ip += 1

    def i_br(s, st, fr, ins, stop, out, work):
        d = ins.x['dst']
        if len(d) == 1:
            return s.jump(st, d[0], stop, out, work)
        c = s.val(st, ins.a[0], IR.IntTy(1))
        if c is UNDEF:
            raise Unsupported('branch on undef')
        if not isinstance(c, F):
            c = s.to_bool(st, c)
        r = s.decided(st, c)
        if r is not None:
            return s.jump(st, d[0] if r else d[1], stop, out, work)
        # undecided: leaving a loop?
        L = IR.loops(fr.f)
        cand = [h for h in fr.iters if not isinstance(h, tuple) and h in L and fr.blk in L[h] and (d[0] not in L[h] or d[1] not in L[h])
                and (len(st.frames), h) not in fr.gen]
        if __import__('os').environ.get('LOOPDBG'):
            print('LOOP br', fr.blk, d, cand, [(x, len(L[x]), x in fr.snaps) for x in L if fr.blk in L[x]], {a:b for a,b in fr.iters.items()}, str(c)[:150], fr.gen)
        if cand:
            h = min(cand, key=lambda x: len(L[x]))
            res = s.loop(st, fr, h, L[h], stop, out, work)
            if res is not None:
                return res
        b = st.clone()
        st.assume(c)
        b.assume(fnot(c))
        rb = s.jump_safe(b, d[1], stop, out, work)
        ra = s.jump_safe(st, d[0], stop, out, work)
        if rb is None:
            work.append(b)
        if ra is None:
            work.append(st)
        return 'forked'

    def jump_safe(s, st, dst, stop, out, work):
        try:
            return s.jump(st, dst, stop, out, work)
        except PathEnd:
            s.paths += 1
            return 'end'

    def i_switch(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.ty)
        if v is UNDEF:
            raise Unsupported('switch on undef')
        if isinstance(v, F):
            v = ite(v, ONE, ZERO)
        w = ins.ty.n
        v = s.sig(st, v, w)
        for cv, lab in ins.x['cases']:
            if s.decide(st, eq(v, C(cv))):
                return s.jump(st, lab, stop, out, work)
        return s.jump(st, ins.x['dst'][0], stop, out, work)

    def loop(s, st, fr, h, body, stop, out, work):
        import loopsum
        return loopsum.summarize(s, st, fr, h, body, stop, out, work)

    def i_unreachable(s, st, fr, ins, stop, out, work):
        raise PathEnd()

    def i_fence(s, st, fr, ins, stop, out, work):
        fr.ip += 1

    def i_freeze(s, st, fr, ins, stop, out, work):
        s.setr(fr, ins, s.val(st, ins.a[0], ins.ty))

    def i_alloca(s, st, fr, ins, stop, out, work):
        n = s.val(st, ins.a[0], IR.IntTy(64))
        sz = C(s.mod.size(ins.ty)) * n
        o = s.new(st, sz)
        fr.allocas.append(o)
        s.setr(fr, ins, Ptr(o))

    def i_load(s, st, fr, ins, stop, out, work):
        p = s.val(st, ins.a[0], IR.PTR)
        s.setr(fr, ins, s.load(st, p, ins.ty))

    def i_store(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.ty)
        p = s.val(st, ins.a[1], IR.PTR)
        s.store_ty(st, p, v, ins.ty)
        fr.ip += 1

    def store_ty(s, st, p, v, ty):
        ty = s.mod.resolve(ty)
        if ty.k in ('struct', 'pstruct') and isinstance(v, Agg):
            _, offs = s.mod.fields(ty)
            for o, t, x in zip(offs, ty.a, v.v):
                s.store_ty(st, p.add(o), x, t)
            return
        if ty.k in ('arr', 'vec') and isinstance(v, Agg):
            es = s.mod.size(ty.a)
            for k, x in enumerate(v.v):
                s.store_ty(st, p.add(k * es), x, ty.a)
            return
        n = s.mod.size(ty)
        if isinstance(v, F):
            v = ite(v, ONE, ZERO)
        s.store(st, p, v, n, tk(ty) if not isinstance(v, PInt) else 'i')

    def i_getelementptr(s, st, fr, ins, stop, out, work):
        vals = [s.val(st, a, t) for a, t in zip(ins.a, ins.x['at'])]
        s.setr(fr, ins, s.gep(st, ins.ty, vals, ins.x['at']))

    def i_extractvalue(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.ty)
        for i in ins.x['idx']:
            v = v.v[i] if v is not UNDEF else UNDEF
        s.setr(fr, ins, v)

    def i_insertvalue(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.ty)
        x = s.val(st, ins.a[1], ins.x['vt'])

        def rec(a, ty, idx):
            ty = s.mod.resolve(ty)
            n = len(ty.a) if ty.k in ('struct', 'pstruct') else ty.n
            a = Agg(a.v) if a is not UNDEF else Agg([UNDEF] * n)
            et = ty.a[idx[0]] if ty.k in ('struct', 'pstruct') else ty.a
            a.v[idx[0]] = x if len(idx) == 1 else rec(a.v[idx[0]], et, idx[1:])
            return a
        s.setr(fr, ins, rec(v, ins.ty, ins.x['idx']))

    def i_extractelement(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.ty)
        i = s.val(st, ins.a[1], IR.IntTy(64)).cval()
        s.setr(fr, ins, UNDEF if v is UNDEF else v.v[i])

    def i_insertelement(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.ty)
        x = s.val(st, ins.a[1], s.mod.resolve(ins.ty).a)
        i = s.val(st, ins.a[2], IR.IntTy(64)).cval()
        a = Agg(v.v) if v is not UNDEF else Agg([UNDEF] * ins.ty.n)
        a.v[i] = x
        s.setr(fr, ins, a)

    def i_shufflevector(s, st, fr, ins, stop, out, work):
        a = s.val(st, ins.a[0], ins.ty)
        b = s.val(st, ins.a[1], ins.ty)
        n = ins.ty.n
        mk = s.const(st, ins.a[2], ins.x['mt'])
        av = [UNDEF] * n if a is UNDEF else a.v
        bv = [UNDEF] * n if b is UNDEF else b.v
        allv = av + bv
        s.setr(fr, ins, Agg([UNDEF if m is UNDEF else allv[m.cval()] for m in mk.v]))

    def i_landingpad(s, st, fr, ins, stop, out, work):
        ptr, ti, sel = st.exc
        s.setr(fr, ins, Agg([ptr, C(sel)]))

    def i_resume(s, st, fr, ins, stop, out, work):
        ptr, ti, sel = st.exc
        v = s.val(st, ins.a[0], ins.ty)
        p = v.v[0] if isinstance(v, Agg) else ptr
        m = st.mem.get(p.o)
        ti = m.tag[1] if m is not None and isinstance(m.tag, tuple) and m.tag[0] == 'exc' else ti
        if stop is not None:
            pass
        # leaving this frame
        if stop is not None:
            tag = stop(st, len(st.frames), fr.blk, None)
            if tag:
                st.ghost['unwinding'] = (p, ti)
                out.append((tag, st))
                return 'stopped'
        s.pop_frame(st)
        if not st.frames:
            s.uncaught(st, ti)
            raise PathEnd()
        return s.unwind(st, p, ti, stop, out, work)

    def continue_after_stop(s, st, stop, out, work):
        """resume a state intercepted while leaving a frame (return / unwinding)"""
        if 'unwinding' in st.ghost:
            p, ti = st.ghost.pop('unwinding')
            s.pop_frame(st)
            if not st.frames:
                s.uncaught(st, ti)
                raise PathEnd()
            return s.unwind(st, p, ti, stop, out, work)
        return None

    def i_select(s, st, fr, ins, stop, out, work):
        c = s.val(st, ins.a[0], IR.IntTy(1))
        a = s.val(st, ins.a[1], ins.ty)
        b = s.val(st, ins.a[2], ins.ty)
        if isinstance(c, Agg):
            raise Unsupported('vector select')
        r = s.decided(st, c, True)
        if r is not None:
            return s.setr(fr, ins, a if r else b)
        if isinstance(a, F) or isinstance(b, F):
            a = s.to_bool(st, a) if a is not UNDEF else FF
            b = s.to_bool(st, b) if b is not UNDEF else FF
            return s.setr(fr, ins, f_or(f_and(c, a), f_and(fnot(c), b)))
        if isinstance(a, Poly) and isinstance(b, Poly):
            if a == b:
                return s.setr(fr, ins, a)
            if ins.ty.k == 'int' and a.is_const() and b.is_const():
                return s.setr(fr, ins, ite(c, a, b))
        raise ForkOn(c)

    def i_icmp(s, st, fr, ins, stop, out, work):
        a = s.val(st, ins.a[0], ins.ty)
        b = s.val(st, ins.a[1], ins.ty)
        s.setr(fr, ins, s.icmp(st, ins.x['pred'], a, b, ins.ty))

    def icmp(s, st, pr, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.k == 'ptr' or isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            if isinstance(a, PInt):
                a = a.p
            if isinstance(b, PInt):
                b = b.p
            if isinstance(a, Poly):
                a = Ptr(None, a)
            if isinstance(b, Poly):
                b = Ptr(None, b)
            if a.o != b.o:
                if pr == 'eq':
                    return FF
                if pr == 'ne':
                    return T
                if a.o is None and not a.off.d:
                    return T if pr in ('ult', 'ule', 'slt', 'sle') else FF
                if b.o is None and not b.off.d:
                    return T if pr in ('ugt', 'uge', 'sgt', 'sge') else FF
                raise Unsupported('pointer order')
            x, y = a.off, b.off
            return cmpf(pr, x, y)
        if ty.n == 1:
            a, b = s.to_bool(st, a), s.to_bool(st, b)
            if pr == 'eq':
                return f_or(f_and(a, b), f_and(fnot(a), fnot(b)))
            if pr == 'ne':
                return f_or(f_and(a, fnot(b)), f_and(fnot(a), b))
            a, b = ite(a, ONE, ZERO), ite(b, ONE, ZERO)
            return cmpf(pr, a, b)
        # recover booleans
        if pr in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                at = x.single()
                if at is not None and at.kind == 'ite' and y.is_const() and at.args[1].is_const() and at.args[2].is_const():
                    M = 1 << ty.n
                    e1 = (at.args[1].cval() - y.cval()) % M == 0
                    e2 = (at.args[2].cval() - y.cval()) % M == 0
                    r = T if e1 and e2 else FF if not (e1 or e2) else at.args[0] if e1 else fnot(at.args[0])
                    return r if pr == 'eq' else fnot(r)
            d = a - b
            lo, hi = bounds(d, st.bnd)
            M = 1 << ty.n
            if lo is not None and hi is not None and lo > -M and hi < M:
                return cmpf(pr, a, b)
        if pr[0] == 's':
            return cmpf(pr, s.sig(st, a, ty.n), s.sig(st, b, ty.n))
        return cmpf(pr, s.uns(st, a, ty.n), s.uns(st, b, ty.n))

    def i_fcmp(s, st, fr, ins, stop, out, work):
        a = s.val(st, ins.a[0], ins.ty)
        b = s.val(st, ins.a[1], ins.ty)
        s.setr(fr, ins, s.fcmp(st, ins.x['pred'], a, b))

    def fcmp(s, st, pr, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('fcmp undef')
        if isinstance(a, FS) or isinstance(b, FS):
            if isinstance(a, FS) and isinstance(b, FS):
                raise Unsupported('fcmp special')
            if pr in ('ord',):
                return T
            if pr in ('uno',):
                return FF
            inf = a.d if isinstance(a, FS) else b.d
            if inf != inf:
                return T if pr[0] == 'u' else FF
            if pr[1:] == 'eq':
                return FF
            if pr[1:] == 'ne':
                return T
            gt = (inf > 0) == isinstance(a, FS)      # a > b
            return T if (pr[1] == 'g') == gt else FF
        if pr == 'ord':
            return T
        if pr == 'uno':
            return FF
        if pr == 'true':
            return T
        if pr == 'false':
            return FF
        x, y = s.real(a), s.real(b)
        k = pr[1:]
        d = x - y
        if k in ('eq', 'ne') and alg.real_zero(d):
            return T if k == 'eq' else FF
        if any(at.kind == 'fn' for at in d.atoms()):
            d = alg.trig_reduce(d)
            if len(d.d) == 1:
                # the sign of c*sqrt(S) is that of c*S (S >= 0 where the root exists)
                (m, c), = d.d.items()
                if len(m) == 1 and m[0][1] == 1 and alg._by_id[m[0][0]].kind == 'fn' and alg._by_id[m[0][0]].name == 'sqrt':
                    d = alg._by_id[m[0][0]].args[0] * (1 if c > 0 else -1)
        f = {'eq': lambda: eq0(d), 'ne': lambda: fnot(eq0(d)), 'lt': lambda: lt0(d), 'le': lambda: le0(d),
             'gt': lambda: lt0(-d), 'ge': lambda: le0(-d)}[k]()
        return f

    # arithmetic
    def ib(fn_):
        def h(s, st, fr, ins, stop, out, work):
            a = s.val(st, ins.a[0], ins.ty)
            b = s.val(st, ins.a[1], ins.ty)
            if isinstance(a, Agg) or isinstance(b, Agg):
                et = ins.ty.a
                r = Agg([UNDEF if x is UNDEF or y is UNDEF else fn_(s, st, x, y, et, ins) for x, y in zip(a.v, b.v)])
            elif (a is UNDEF) != (b is UNDEF) and ins.op in ('and', 'or') and ins.ty.n > 1:
                # an unset word whose bits are set one by one: any value
                if a is UNDEF:
                    a = s.any_word(ins, ins.ty.n)
                else:
                    b = s.any_word(ins, ins.ty.n)
                r = fn_(s, st, a, b, ins.ty, ins)
            elif a is UNDEF or b is UNDEF:
                r = UNDEF
            else:
                r = fn_(s, st, a, b, ins.ty, ins)
            s.setr(fr, ins, r)
        return h

    def p_add(s, st, a, b, ty, ins):
        if isinstance(a, PInt) and isinstance(b, Poly):
            return PInt(a.p.add(b))
        if isinstance(b, PInt) and isinstance(a, Poly):
            return PInt(b.p.add(a))
        if isinstance(a, F) or isinstance(b, F):
            return s.p_xor(st, a, b, ty, ins)
        return s.red(a + b, ty)

    def red(s, p, ty):
        """keep constants small"""
        if p.is_const():
            M = 1 << ty.n
            v = p.cval() % M
            if v >= M >> 1:
                v -= M
            return C(v)
        if len(p.d) > 1 or True:
            M = 1 << ty.n
            d = None
            for m, c in p.d.items():
                if c >= M >> 1 or c < -(M >> 1):
                    d = d or dict(p.d)
                    v = c % M
                    if v >= M >> 1:
                        v -= M
                    if v:
                        d[m] = v
                    else:
                        del d[m]
            if d is not None:
                return Poly(d)
        return p

    def p_sub(s, st, a, b, ty, ins):
        if isinstance(a, PInt) and isinstance(b, PInt):
            if a.p.o != b.p.o:
                raise Unsupported('difference of pointers to different objects')
            return a.p.off - b.p.off
        if isinstance(a, PInt) and isinstance(b, Poly):
            return PInt(a.p.add(-b))
        if isinstance(a, F) or isinstance(b, F):
            return s.p_xor(st, a, b, ty, ins)
        if isinstance(b, PInt) and isinstance(a, Poly) and b.p.o is None:
            return a - b.p.off
        if isinstance(b, PInt):
            raise Unsupported('ptr sub')
        return s.red(a - b, ty)

    def p_mul(s, st, a, b, ty, ins):
        if isinstance(a, F):
            return f_and(a, b)
        return s.red(a * b, ty)

    def pdiv(s, st, a, b):
        """floor(a/b), a>=0, b>0"""
        if b.is_const():
            if b.cval() == 0:
                raise Unsupported('division by zero')
            return idiv(a, b.cval())
        if len(b.d) == 1:
            (m, c), = b.d.items()
            ok, q = True, {}
            for mm, cc in a.d.items():
                d = dict(mm)
                for at, e in m:
                    d[at] = d.get(at, 0) - e
                if any(e < 0 for e in d.values()) or cc % c:
                    ok = False
                    break
                q[tuple(sorted((x, e) for x, e in d.items() if e))] = cc // c
            if ok:
                return Poly(q)
        q = fn('udiv', [a, b], 'I', 0, None)
        st.assume(f_and(le(q * b, a), lt(a, q * b + b)))
        return q

    def p_udiv(s, st, a, b, ty, ins):
        a, b = s.uns(st, a, ty.n), s.uns(st, b, ty.n)
        if not b.is_const() and not s.decide(st, lt(ZERO, b)):
            raise Unsupported('division by zero')
        return s.pdiv(st, a, b)

    def p_sdiv(s, st, a, b, ty, ins):
        a, b = s.sig(st, a, ty.n), s.sig(st, b, ty.n)
        if 'exact' in ins.x['fl'] and b.is_const() and b.cval() > 0:
            c = b.cval()
            if all(k % c == 0 for k in a.d.values()):
                return Poly({m: k // c for m, k in a.d.items()})
        sgn = 1
        if b.is_const():
            if b.cval() < 0:
                b, sgn = -b, -sgn
        elif not s.decide(st, lt(ZERO, b)):
            if s.decide(st, eq(b, ZERO)):
                raise Unsupported('division by zero')
            b, sgn = -b, -sgn
        if not s.decide(st, le(ZERO, a)):
            a, sgn = -a, -sgn
        return s.pdiv(st, a, b) * sgn

    def p_urem(s, st, a, b, ty, ins):
        a, b = s.uns(st, a, ty.n), s.uns(st, b, ty.n)
        if b.is_const():
            return imod(a, b.cval())
        if not s.decide(st, lt(ZERO, b)):
            raise Unsupported('division by zero')
        return a - s.pdiv(st, a, b) * b

    def p_srem(s, st, a, b, ty, ins):
        q = s.p_sdiv(st, a, b, ty, ins)
        return s.sig(st, a, ty.n) - q * s.sig(st, b, ty.n)

    def any_word(s, ins, n):
        return fresh('word', 'I', 0, (1 << n) - 1)

    def shift_amount(s, st, b, ty):
        """a symbolic shift amount is split into its cases; None: out of range (poison)"""
        b = s.uns(st, b, ty.n)
        if not s.decide(st, lt(b, C(ty.n))):
            return None
        lo, hi = bounds(b, st.bnd)
        lo, hi = max(0, lo or 0), min(ty.n - 1, ty.n - 1 if hi is None else hi)
        for k in range(lo, hi + 1):
            if s.decide(st, eq(b, C(k))):
                return k
        raise PathEnd()

    def p_shl(s, st, a, b, ty, ins):
        if not b.is_const():
            k = s.shift_amount(st, b, ty)
            return UNDEF if k is None else s.p_shl(st, a, C(k), ty, ins)
        k = b.cval()
        ds = s.digits(st, s.uns(st, a, ty.n), ty.n // 8) if k % 8 == 0 and ty.n % 8 == 0 else None
        if ds:
            z = k // 8
            return s.undigits([ZERO] * z + ds[:len(ds) - z])
        return s.red(a * (1 << k), ty)

    def p_lshr(s, st, a, b, ty, ins):
        if not b.is_const():
            k = s.shift_amount(st, b, ty)
            return UNDEF if k is None else s.p_lshr(st, a, C(k), ty, ins)
        k = b.cval()
        if isinstance(a, PInt):
            raise Unsupported('shift of pointer')
        u = s.uns(st, a, ty.n)
        if k % 8 == 0 and ty.n % 8 == 0:
            ds = s.digits(st, u, ty.n // 8)
            if ds:
                return s.undigits(ds[k // 8:])
        return idiv(u, 1 << k)

    def p_ashr(s, st, a, b, ty, ins):
        if not b.is_const():
            raise Unsupported('variable ashr')
        if isinstance(a, PInt):
            raise Unsupported('shift of pointer')
        return idiv(s.sig(st, a, ty.n), 1 << b.cval())

    def p_and(s, st, a, b, ty, ins):
        if ty.n == 1:
            return f_and(s.to_bool(st, a), s.to_bool(st, b))
        if isinstance(a, PInt) or isinstance(b, PInt):
            raise Unsupported('and on pointer')
        if a.is_const() and not b.is_const():
            a, b = b, a
        if a == b:
            return a
        if b.is_const():
            M = b.cval() % (1 << ty.n)
            if M == (1 << ty.n) - 1:
                return a
            u = s.uns(st, a, ty.n)
            if a.is_const():
                return s.red(C(u.cval() & M), ty)
            lo, hi = bounds(u, st.bnd)
            ds = s.digits(st, u, (ty.n + 7) // 8)
            if ds and all(((M >> (8 * k)) & 255) in (0, 255) for k in range(len(ds))):
                return s.undigits([d if (M >> (8 * k)) & 255 else ZERO for k, d in enumerate(ds)])
            r = ZERO
            k = 0
            while k < ty.n:
                if (M >> k) & 1:
                    e = k
                    while e < ty.n and (M >> e) & 1:
                        e += 1
                    r = r + (idiv(u, 1 << k) - idiv(u, 1 << e) * (1 << (e - k))) * (1 << k)
                    k = e
                else:
                    k += 1
            return r
        x, y = s.uns(st, a, ty.n), s.uns(st, b, ty.n)
        da, db = s.digits(st, x, (ty.n + 7) // 8), s.digits(st, y, (ty.n + 7) // 8)
        # bits 0/1 values
        bx, by = bounds(x, st.bnd), bounds(y, st.bnd)
        if bx == (0, 1) and by == (0, 1):
            return ite(f_and(eq(x, ONE), eq(y, ONE)), ONE, ZERO)
        st.notes.add('bitand')
        return fn('bvand', [x, y], 'I', 0, (1 << ty.n) - 1)

    def p_or(s, st, a, b, ty, ins):
        if ty.n == 1:
            return f_or(s.to_bool(st, a), s.to_bool(st, b))
        if isinstance(a, PInt) or isinstance(b, PInt):
            raise Unsupported('or on pointer')
        x, y = s.uns(st, a, ty.n), s.uns(st, b, ty.n)
        if not x.d:
            return y
        if not y.d:
            return x
        if x == y:
            return x
        if x.is_const() and y.is_const():
            return s.red(C(x.cval() | y.cval()), ty)
        if 'disjoint' in ins.x['fl']:
            return x + y
        nb = (ty.n + 7) // 8
        da, db = s.digits(st, x, nb), s.digits(st, y, nb)
        if da and db:
            o = []
            for p, q in zip(da, db):
                if not p.d:
                    o.append(q)
                elif not q.d:
                    o.append(p)
                else:
                    o = None
                    break
            if o:
                return s.undigits(o)
        for u, v in ((x, y), (y, x)):
            g = 0
            import math
            for c in u.d.values():
                g = math.gcd(g, c)
            t = (g & -g)
            lo, hi = bounds(v, st.bnd)
            if lo is not None and lo >= 0 and hi is not None and hi < t:
                return u + v
        for u, v in ((x, y), (y, x)):
            if v.is_const() and bin(v.cval()).count('1') <= 2:
                # u | M  =  (u & ~M) + M
                return s.p_and(st, u, C(((1 << ty.n) - 1) & ~v.cval()), ty, ins) + v
        bx, by = bounds(x, st.bnd), bounds(y, st.bnd)
        if bx == (0, 1) and by == (0, 1):
            return ite(f_or(eq(x, ONE), eq(y, ONE)), ONE, ZERO)
        st.notes.add('bitor')
        r = fn('bvor', [x, y], 'I', 0, (1 << ty.n) - 1)
        st.assume(f_and(le(x, r), le(y, r), le(r, x + y)))
        return r

    def p_xor(s, st, a, b, ty, ins):
        if ty.n == 1:
            a, b = s.to_bool(st, a), s.to_bool(st, b)
            if b.k == 'true':
                return fnot(a)
            if a.k == 'true':
                return fnot(b)
            return f_or(f_and(a, fnot(b)), f_and(fnot(a), b))
        x, y = s.uns(st, a, ty.n), s.uns(st, b, ty.n)
        if x.is_const():
            x, y = y, x
        if y.is_const():
            if not y.d:
                return x
            M = (1 << ty.n) - 1
            if y.cval() == M:
                return M - x
            if x.is_const():
                return s.red(C(x.cval() ^ y.cval()), ty)
            v = y.cval()
            if v & (v - 1) == 0:      # flip one bit
                k = v.bit_length() - 1
                bit = imod(idiv(x, 1 << k), 2)
                return x + v - bit * (2 * v)
            lo, hi = bounds(x, st.bnd)
            if lo == 0 and hi == 1 and v == 1:
                return ONE - x
        if x == y:
            return ZERO
        st.notes.add('bitxor')
        return fn('bvxor', [x, y], 'I', 0, (1 << ty.n) - 1)

    i_add, i_sub, i_mul = ib(p_add), ib(p_sub), ib(p_mul)
    i_udiv, i_sdiv, i_urem, i_srem = ib(p_udiv), ib(p_sdiv), ib(p_urem), ib(p_srem)
    i_shl, i_lshr, i_ashr, i_and, i_or, i_xor = ib(p_shl), ib(p_lshr), ib(p_ashr), ib(p_and), ib(p_or), ib(p_xor)

    # floating point as real arithmetic
    def p_fadd(s, st, a, b, ty, ins):
        return s.real(a) + s.real(b)

    def p_fsub(s, st, a, b, ty, ins):
        return s.real(a) - s.real(b)

    def p_fmul(s, st, a, b, ty, ins):
        x, y = s.real(a), s.real(b)
        r = x * y
        if len(x.d) > 1 and x == y and any(at.kind == 'fn' for at in x.atoms()):
            try:
                st.assume(le0(-alg.trig_reduce(r)))      # a square; the sum-of-squares shape is lost once it is expanded
            except alg.TooBig:
                pass
        return alg.trig_reduce(r)

    def p_fdiv(s, st, a, b, ty, ins):
        x, y = s.real(a), alg.trig_reduce(s.real(b))
        if not y.is_const() and not s.prove_nonzero(st, y):
            st.notes.add('div')
        if y.is_const() and not y.d:
            raise Unsupported('division by zero')
        if x == y:
            return ONE
        q = poly_quot(x, y)
        return q if q is not None else x * inv(y)

    def prove_nonzero(s, st, y):
        return True

    def p_frem(s, st, a, b, ty, ins):
        x, y = s.real(a), s.real(b)
        return s.fmod(st, x, y)

    def fmod(s, st, x, y):
        if not y.is_const():
            if not s.decide(st, lt0(-y)):
                y = -y
        elif y.cval() < 0:
            y = -y
        q = poly_quot(x, y)
        q = q if q is not None else x * inv(y)
        if s.decide(st, le0(-x)):
            return x - s.floor(q) * y
        return x + s.floor(-q) * y

    def floor(s, p):
        if p.is_const():
            v = Q(p.cval())
            return C(v.numerator // v.denominator)
        if p.sort() == 'I':
            return p
        # split integer part
        ip, rp = {}, {}
        for m, c in p.d.items():
            if (isinstance(c, int)) and all(alg._by_id[a].sort == 'I' and e > 0 for a, e in m):
                ip[m] = c
            else:
                rp[m] = c
        r = Poly(rp)
        c0 = r.d.get((), 0)
        # all-integer atoms with rational coefficients: floor((P)/d)
        if r.d and all(alg._by_id[a].sort == 'I' and e > 0 for m in r.d for a, e in m):
            den = 1
            import math
            for c in r.d.values():
                if isinstance(c, Q):
                    den = den * c.denominator // math.gcd(den, c.denominator)
            num = Poly({m: int(c * den) for m, c in r.d.items()})
            return Poly(ip) + idiv(num, den)
        lo, hi = bounds(r)
        import math
        return Poly(ip) + (fn('floor', [r], 'I', None if lo is None else math.floor(lo), None if hi is None else math.floor(hi)) if r.d else ZERO)

    i_fadd, i_fsub, i_fmul, i_fdiv, i_frem = ib(p_fadd), ib(p_fsub), ib(p_fmul), ib(p_fdiv), ib(p_frem)

    def i_fneg(s, st, fr, ins, stop, out, work):
        a = s.val(st, ins.a[0], ins.ty)
        if isinstance(a, FB) :
            bits = a.bits
            r = -s.real(a)
        elif isinstance(a, Agg):
            r = Agg([-s.real(x) for x in a.v])
        else:
            r = -s.real(a)
        s.setr(fr, ins, r)

    # casts
    def i_trunc(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        if v is UNDEF:
            return s.setr(fr, ins, UNDEF)
        if ins.ty.n == 1:
            return s.setr(fr, ins, s.to_bool(st, v))
        if isinstance(v, PInt):
            raise Unsupported('trunc ptr')
        M = 1 << ins.ty.n
        # representatives stay valid modulo the smaller power of two
        p = v
        if ins.ty.n % 8 == 0:
            ds = s.digits(st, s.uns(st, v, ins.x['src'].n), ins.x['src'].n // 8) if ins.x['src'].n % 8 == 0 else None
            if ds:
                p = s.undigits(ds[:ins.ty.n // 8])
        s.setr(fr, ins, s.red(p, ins.ty))

    def i_zext(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        if v is UNDEF:
            return s.setr(fr, ins, UNDEF)
        if isinstance(v, F):
            return s.setr(fr, ins, ite(v, ONE, ZERO))
        if isinstance(v, Agg):
            raise Unsupported('vector zext')
        s.setr(fr, ins, s.uns(st, v, ins.x['src'].n))

    def i_sext(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        if v is UNDEF:
            return s.setr(fr, ins, UNDEF)
        if isinstance(v, F):
            return s.setr(fr, ins, ite(v, C(-1), ZERO))
        s.setr(fr, ins, s.sig(st, v, ins.x['src'].n))

    def i_fpext(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        s.setr(fr, ins, s.real(v) if not isinstance(v, FS) else v)
    i_fptrunc = i_fpext

    def i_sitofp(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        if isinstance(v, F):
            v = ite(v, C(-1), ZERO)
        s.setr(fr, ins, s.sig(st, v, ins.x['src'].n))

    def i_uitofp(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        if isinstance(v, F):
            v = ite(v, ONE, ZERO)
        else:
            v = s.uns(st, v, ins.x['src'].n)
        s.setr(fr, ins, v)

    def i_fptosi(s, st, fr, ins, stop, out, work):
        v = s.real(s.val(st, ins.a[0], ins.x['src']))
        if v.sort() == 'I':
            return s.setr(fr, ins, v)
        if s.decide(st, le0(-v)):
            r = s.floor(v)
        else:
            r = -s.floor(-v)
        s.setr(fr, ins, r)
    i_fptoui = i_fptosi

    def i_ptrtoint(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        if isinstance(v, Ptr) and v.o is None:
            return s.setr(fr, ins, v.off)
        s.setr(fr, ins, PInt(v) if v is not UNDEF else UNDEF)

    def i_inttoptr(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        s.setr(fr, ins, v.p if isinstance(v, PInt) else Ptr(None, v))

    def i_bitcast(s, st, fr, ins, stop, out, work):
        v = s.val(st, ins.a[0], ins.x['src'])
        a, b = ins.x['src'], ins.ty
        if v is UNDEF:
            return s.setr(fr, ins, UNDEF)
        if a.k == 'vec' or b.k == 'vec':
            o = s.new(st, s.mod.size(a))
            s.store_ty(st, Ptr(o), v, a)
            v = s.load(st, Ptr(o), b)
            del st.mem[o]
            return s.setr(fr, ins, v)
        if a.k == b.k:
            return s.setr(fr, ins, v)
        n = s.mod.size(a)
        s.setr(fr, ins, s.as_type(st, v, n, tk(a), b))

    # calls
    def i_call(s, st, fr, ins, stop, out, work):
        c = ins.x['callee']
        if c[0] == 'g':
            name = c[1]
            while name in s.mod.aliases:
                name = s.mod.aliases[name][1]
        elif c[0] == 'asm':
            fr.ip += 1
            if ins.res:
                raise Unsupported('asm')
            return
        else:
            v = s.val(st, c, IR.PTR)
            if isinstance(v, Ptr) and isinstance(v.o, tuple) and v.o[0] == 'fn':
                name = v.o[1]
            else:
                raise Unsupported('indirect call')
        args = [None if t.k == 'metadata' else s.val(st, a, t) for (t, a, _) in ins.x['at']]
        return s.call(st, fr, ins, name, args, stop, out, work)
    i_invoke = i_call

    def call(s, st, fr, ins, name, args, stop, out, work):
        f = s.mod.funcs.get(name)
        key = name[1:].strip('"')
        h = s.models.find(key)
        if h is None and f is not None:
            # by-value arguments are copied
            s.enter(st, f, args, None)
            return None
        if h is None:
            raise Unsupported('call to ' + s.demangle(key)[:160])
        s.libcalls[key] = s.libcalls.get(key, 0) + 1
        r = h(s, st, args, ins)
        if isinstance(r, Enter):
            s.enter(st, r.f, r.args, None)
            return None
        fr = st.frames[-1]
        if ins.res is not None:
            fr.env[ins.res] = r
        if ins.op == 'invoke':
            return s.jump(st, ins.x['dst'][0], stop, out, work)
        fr.ip += 1
        return None


class Enter:
    """a model that redirects to another IR function"""

    def __init__(s, f, args):
        s.f, s.args = f, args


class PInt:
    """pointer value as an integer"""
    __slots__ = ('p',)

    def __init__(s, p):
        s.p = p

    def __eq__(s, o):
        return isinstance(o, PInt) and s.p == o.p

    def __hash__(s):
        return hash(s.p)

    def __repr__(s):
        return f"int({s.p})"


def tk(t):
    return {'int': 'i', 'double': 'f', 'float': 'f', 'x86_fp80': 'f', 'ptr': 'p'}.get(t.k, 'agg')


def cmpf(pr, x, y):
    k = pr[-2:]
    if pr == 'eq':
        return eq(x, y)
    if pr == 'ne':
        return fnot(eq(x, y))
    return {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[k]


def poly_quot(x, y):
    """x/y when y divides x by a constant or monomial, structurally"""
    if y.is_const():
        return x * (Q(1) / y.cval())
    if len(x.d) == len(y.d) and x.d:
        m = min(y.d)
        if m in x.d:
            c = Q(x.d[m]) / y.d[m]
            if x == y * alg._n(c):
                return C(c)
    return None


FORKY = {'load', 'store', 'switch', 'select', 'icmp', 'fcmp', 'udiv', 'sdiv', 'urem', 'srem', 'fptosi', 'fptoui', 'frem',
         'shl', 'lshr', 'ret', 'resume', 'trunc', 'getelementptr'}


def nonlinear(f):
    """number of monomials of the largest non-linear real polynomial of an atomic formula (0: none)"""
    if f.k == 'not':
        return nonlinear(f.a[0])
    if f.k in ('le0', 'lt0', 'eq0'):
        p = f.a[0]
        if p.sort() == 'R' and any(sum(abs(e) for _, e in m) >= 2 for m in p.d):
            return len(p.d) + (100 if max(sum(abs(e) for _, e in m) for m in p.d) > 6 else 0)
    return 0


def lin_unsat(pc, extra):
    """linear arithmetic over monomials (each monomial an unknown): sound, and enough for sums of known squares"""
    sol = z3.Solver()
    sol.set('timeout', 1000)
    vs = {}

    def lin(p):
        t = []
        for m, c in p.d.items():
            k = z3.RealVal(str(Q(c)))
            if m:
                if m not in vs:
                    vs[m] = z3.Real('m%d' % len(vs))
                    if all(e % 2 == 0 for _, e in m):
                        sol.add(vs[m] >= 0)
                k = k * vs[m]
            t.append(k)
        return z3.Sum(t) if t else z3.RealVal(0)

    def add(f, must):
        if f.k == 'and':
            return all([add(x, must) for x in f.a])
        if f.k == 'not' and f.a[0].k == 'eq0':
            sol.add(lin(f.a[0].a[0]) != 0)
        elif f.k == 'le0':
            sol.add(lin(f.a[0]) <= 0)
        elif f.k == 'lt0':
            sol.add(lin(f.a[0]) < 0)
        elif f.k == 'eq0':
            sol.add(lin(f.a[0]) == 0)
        else:
            return False
        return True
    if not add(extra, True):
        return False
    for f in pc:
        if f.k in ('le0', 'lt0', 'eq0') and f.a[0].sort() == 'R':
            add(f, False)
    return sol.check() == z3.unsat


def fresh_check(pc, extra, timeout):
    sol = z3.Solver()
    sol.set('timeout', timeout)
    if any(huge(f) for f in extra):
        return 'unknown', None
    fs = [f for f in pc if not huge(f)] + list(extra)
    bv = [x.a[0] for x in walk_forall(fs)]
    for x in alg.axioms_for([a for a in alg.collect_atoms(fs) if a not in bv], bv):
        sol.add(x)
    for f in fs:
        sol.add(alg.zf(f))
    r = sol.check()
    return str(r), (sol.model() if r == z3.sat else None)


def cvc5_unsat(pc, extra, seconds):
    import subprocess, tempfile, os
    sol = z3.Solver()
    if any(huge(f) for f in extra):
        return False
    fs = [f for f in pc if not huge(f)] + list(extra)
    bv = [x.a[0] for x in walk_forall(fs)]
    for x in alg.axioms_for([a for a in alg.collect_atoms(fs) if a not in bv], bv):
        sol.add(x)
    for f in fs:
        sol.add(alg.zf(f))
    txt = "(set-logic ALL)\n" + sol.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as t:
        t.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (seconds * 1000), t.name], capture_output=True, text=True, timeout=seconds + 5)
        return r.stdout.strip().startswith('unsat')
    except Exception:
        return False
    finally:
        os.unlink(t.name)
