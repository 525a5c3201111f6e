"""Loop induction.

A loop whose exit test is not decided is summarised by an inductive invariant T(k), "the state at the loop header after k iterations", guessed from
executing the body and then checked: T(0) is the state S0 at the header, and executing the body from T(k), for an arbitrary k >= 0, leads at every back
edge to T(k+1).  Only then are the exits of body(T(k)) taken as the exits of the loop.  What T(k) fixes: header phis and constant cells that change by a
constant per iteration, elements written at base + stride*k (kept as 'for all j < k' updates) and text appended per iteration (kept as comprehensions);
whatever else the body changes is forgotten (reading it is then 'unsupported').  Anything that does not fit makes the loop unrolled up to a bound instead,
and the contract is then reported as bounded."""
from math import gcd
from symex import *
import symex as SX
import alg
from alg import *
import strings as S


class Fail(Exception):
    pass


HV = SX.HV
DEBUG = bool(__import__("os").environ.get("LOOPDBG"))


def dbg(*a):
    if DEBUG:
        print('LOOP', *[str(x)[:900] for x in a], flush=True)


def summarize(E, st, fr, h, body, stop, out, work):
    done, used = None, None
    key = (fr.f.name, h)
    if not E.nosum and E.loopfails.get(key, 0) < 4:
        D = len(st.frames)
        for which, periods in ((h, (1,)), (('first', h), (2, 3, 4, 5, 6))):
            S0 = fr.snaps.get(which)
            if S0 is None:
                continue
            why = 'x'
            for P in periods:
                KNOWN.append(known_arrays(S0))
                try:
                    done = attempt_period(E, S0, D, h, body, P)
                    why = None
                except Period as e:
                    why = 'period'
                    dbg('not periodic', P, e)
                except Fail as e:
                    dbg('fail', P, fr.f.name[:80], h, e)
                except SX.ForkOn as e:
                    dbg('undecided', P, fr.f.name[:80], h, e.f)
                except Unsupported as e:
                    if 'time budget' in str(e):
                        raise
                    dbg('unsupported', P, fr.f.name[:80], h, e)
                finally:
                    KNOWN.pop()
                if done is not None:
                    used = which
                    break
            if done is not None or why != 'period' and which == h:
                break
        if done is None:
            E.loopfails[key] = E.loopfails.get(key, 0) + 1
    if done is None:
        n = fr.iters.get(('sym', h), 0) + 1
        fr.iters[('sym', h)] = n
        if n > E.maxunroll:
            E.bounded = f'loop unrolled {E.maxunroll} times'
            raise PathEnd()
        return None
    E.summaries += 1
    D = len(st.frames)
    work[:] = [w for w in work if not (len(w.frames) >= D and w.frames[D - 1].snaps.get(used) is S0)]
    for tag, x, src, dst in done:
        f = x.frames[D - 1]
        f.gen = f.gen - {(D, h)}
        f.snaps.pop(h, None)
        f.snaps.pop(('first', h), None)
        if tag == 'exit':
            if E.jump_safe(x, dst, stop, out, work) is None:
                work.append(x)
        elif 'unwinding' in x.ghost:
            p, ti = x.ghost.pop('unwinding')
            try:
                if E.unwind(x, p, ti, stop, out, work) is None:
                    work.append(x)
            except PathEnd:
                E.paths += 1
        else:
            x.ghost.pop('returning', None)
            work.append(x)
    return 'summarised'


def run_body(E, X, D, h, body, P=1):
    """P iterations as one"""
    out = []
    cur = [X]
    for i in range(P):
        nxt = []
        for x in cur:
            for tag, y, src, dst in run_once(E, x, D, h, body):
                if tag == 'back' and i + 1 < P:
                    try:
                        E.set_block(y, y.frames[D - 1], dst)
                    except SX.PathEnd:
                        continue
                    nxt.append(y)
                else:
                    out.append((tag, y, src, dst))
        cur = nxt
    return out


def run_once(E, X, D, h, body):
    """-> [(tag, state, src, dst)]"""
    f = X.frames[D - 1]
    f.gen = f.gen | {(D, h)}

    def stop(st, depth, src, dst):
        if depth != D:
            return None
        if dst is None:
            return 'ret'
        if dst == h:
            return 'back'
        if dst not in body:
            return 'exit'
        return None
    return E.explore([X], stop)


def learn(E, X, D, h, body, P=1):
    """back states of one execution of the body, without looking at obligations"""
    keep = (E.collect_only, E.bounded, E.paths, E.returns)
    E.collect_only = True
    try:
        res = run_body(E, X, D, h, body, P)
    finally:
        E.collect_only, E.bounded, E.paths, E.returns = keep
    bs = []
    for tag, x, src, dst in res:
        if tag == 'back':
            try:
                E.set_block(x, x.frames[D - 1], dst)
            except SX.PathEnd:
                continue
            bs.append(x)
    return bs


# ---- the invariant ----------------------------------------------------------------------
class Tpl:
    """phi: name -> ('const',) | ('lin', d) | ('hv', sort)
    cell: (o, off) -> ('lin', d) | ('hv',);  rope: o -> ('app', pieces(k)) | ('unk',) ; ups: o -> [(base, stride, cells)]"""
    def __init__(s):
        s.phi, s.cell, s.rope, s.ups, s.inv = {}, {}, {}, {}, []
        s.ptrs = {}


def lin_delta(a, b):
    """b - a when both are numbers or pointers into the same object"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        return b - a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.o is not None:
        return b.off - a.off
    return None


def advance(v, d):
    if isinstance(v, Ptr):
        return Ptr(v.o, v.off + d)
    return v + d


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Byte):
        return a.k == b.k and a.n == b.n and a.t == b.t and same(a.v, b.v)
    if isinstance(a, SX.FS):
        return a.d == b.d or (a.d != a.d and b.d != b.d)
    try:
        return bool(a == b)
    except Exception:
        return False


def havoc(v, nm):
    if isinstance(v, Poly):
        # integers and reals are both polynomials: keep the sort of the value when it is known
        return HV
    return HV


def fresh_atoms(p, mark, k, seen):
    """does the value mention a variable made after mark (other than k)?"""
    if isinstance(p, Poly):
        for m in p.d:
            for a, _ in m:
                if fresh_atom(a, mark, k, seen):
                    return True
        return False
    if isinstance(p, F):
        return any(fresh_atoms(x, mark, k, seen) for x in p.a if isinstance(x, (Poly, F)))
    if isinstance(p, Ptr):
        return fresh_atoms(p.off, mark, k, seen)
    if isinstance(p, FB):
        return fresh_atoms(p.bits, mark, k, seen)
    if isinstance(p, Byte):
        return fresh_atoms(p.v, mark, k, seen)
    if isinstance(p, SX.PInt):
        return fresh_atoms(p.p, mark, k, seen)
    if isinstance(p, Agg):
        return any(fresh_atoms(x, mark, k, seen) for x in p.v)
    if p is UNDEF or isinstance(p, SX.FS):
        return False
    if p is HV:
        return True
    return True


KNOWN = []      # arrays that exist before the loop (a stack: loops nest)


def known_arrays(S0):
    out = set()

    def rope(r):
        for p in r or ():
            if p[0] == 's':
                out.add(p[1])
            elif p[0] == 'w':
                rope(p[5])
    for m in S0.mem.values():
        rope(m.rope)
        if isinstance(m.init, tuple) and m.init[0] == 'arr':
            out.add(m.init[1])
        for u in m.ups:
            for x in u.objs.values():
                rope(x.rope)
    for at in alg._by_id if isinstance(alg._by_id, list) else alg._by_id.values():
        if at is not None and at.kind == 'sel':
            out.add(at.name)
    return out


def rope_fresh(r, mark, k, seen):
    for p in r:
        if p[0] == 's' and KNOWN and p[1] not in KNOWN[-1]:
            return True
        if p[0] == 'w':
            s2 = dict(seen)
            s2[p[1].id] = False
            if rope_fresh(p[5], mark, k, s2) or any(fresh_atoms(x, mark, k, seen) for x in p[2:4]):
                return True
            continue
        for x in p[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, (Poly, F)) and fresh_atoms(y, mark, k, seen):
                    # the bound variable of a comprehension piece is its own
                    if p[0] == 'm':
                        s2 = dict(seen)
                        s2[p[1].id] = False
                        if not fresh_atoms(y, mark, k, s2):
                            continue
                    return True
    return False


def fresh_atom(aid, mark, k, seen):
    if aid in seen:
        return seen[aid]
    at = alg._by_id[aid]
    r = False
    if at.kind == 'var':
        r = aid >= mark and aid != k
    elif at.kind == 'sel' and KNOWN and at.name not in KNOWN[-1]:
        r = True
    else:
        r = any(fresh_atoms(x, mark, k, seen) for x in at.args if isinstance(x, (Poly, F)))
    seen[aid] = r
    return r


def build(E, S0, D, T, k):
    """the state T(k)"""
    X = S0.clone()
    X.frames[D - 1] = X.frames[D - 1]
    env = X.frames[D - 1].env
    e0 = S0.frames[D - 1].env
    for r, how in T.phi.items():
        if how[0] == 'lin':
            env[r] = advance(e0[r], how[1] * k)
        elif how[0] == 'hv':
            env[r] = HV if how[1] is None else alg.fresh('hv', how[1][0], how[1][1], how[1][2])
    for (o, q), how in T.cell.items():
        m = X.w(o)
        c = S0.mem[o].cells.get(q)
        if how[0] == 'lin':
            m.cells[q] = Cell(c.n, advance(c.v, how[1] * k), c.t)
        else:
            m.cells[q] = Cell(how[1], HV, 'hv')
    for o, how in T.rope.items():
        m = X.w(o)
        r0 = S0.mem[o].rope
        if how[0] == 'app':
            m.rope = S.cat(r0, how[1](k))
        else:
            m.rope = (('s', how[1], ZERO, how[2]),)
    for o, us in T.ups.items():
        m = X.w(o)
        for base, stride, cells, var, objs in us:
            m.ups.append(Upd(var, ZERO, k, base, stride, cells, objs))
    X.assume(le(ZERO, k))
    for g in T.inv:
        X.assume(g(k))
    return X


class Period(Exception):
    """the loop does not repeat itself after this number of iterations"""


def attempt_period(E, S0, D, h, body, P):
    f = S0.frames[D - 1].f
    phis = [p.res for p in f.blocks[h].phis]
    e0 = S0.frames[D - 1].env
    # what one iteration changes
    bs = learn(E, S0.clone(), D, h, body, P)
    if not bs:
        raise Fail('no back edge')
    T = Tpl()
    for r in phis:
        v0 = e0[r]
        how = None
        for b in bs:
            v1 = b.frames[D - 1].env[r]
            if same(v0, v1):
                n = ('lin', ZERO)
            else:
                d = lin_delta(v0, v1)
                n = ('lin', d) if d is not None and d.is_const() else hv(f, h, r, v0, v1)
            how = n if how is None or how == n else hv(f, h, r, v0, v1)
        T.phi[r] = how
    unk = [0]
    for b in bs:
        check_frame(S0, b, D)
        for o, m0 in S0.mem.items():
            m1 = b.mem.get(o)
            if m1 is m0:
                continue
            if m1 is None:
                raise Fail('object freed in the loop')
            note_changes(E, T, S0, o, m0, m1, first=True)
    dbg('round 0', f.name[:60], h, len(bs), 'phi', T.phi, 'cells', T.cell, 'rope', list(T.rope))
    first_bounds(E, S0, D, h, body, bs, T, P)
    # learn and weaken until inductive
    for rnd in range(10):
        mark = len(alg._by_id)
        kp = alg.fresh('k', 'I', 0, None)
        (km, _), = kp.d.items()
        kid = km[0][0]
        X = build(E, S0, D, T, kp)
        bs = learn(E, X.clone(), D, h, body, P)
        if rnd == 0 or not T.inv:
            add_invariants(E, S0, X, bs, T, kp, kid)
            if T.inv and rnd == 0:
                X = build(E, S0, D, T, kp)
                bs = learn(E, X.clone(), D, h, body, P)
        ok = True
        for b in bs:
            if not agree(E, S0, X, b, D, T, kp, kid, mark, phis, h):
                ok = False
        inv = [g for g in T.inv if all(E.decided(b, g(kp + 1)) is True for b in bs)]
        if len(inv) != len(T.inv):
            T.inv = inv
            ok = False
        dbg('round', rnd + 1, ok, 'backs', len(bs), 'phi', {a: x for a, x in T.phi.items()}, 'cells', T.cell, 'ups', {o: [(str(u[0]), u[1], u[2]) for u in us] for o, us in T.ups.items()}, 'inv', [str(g(kp)) for g in T.inv])
        if ok:
            break
    else:
        raise Fail('no inductive invariant found')
    # the real run: obligations count, exits are the exits of the loop
    for g in T.inv:
        if E.decided(S0, g(ZERO)) is not True:
            raise Fail('base case')
    oblig = E.oblig
    E.oblig = {}
    try:
        res = run_body(E, X.clone(), D, h, body, P)
    except BaseException:
        E.oblig = oblig
        raise
    mine, E.oblig = E.oblig, oblig
    if not E.collect_only and any(o['ok'] < o['n'] for o in mine.values()):
        raise Fail('obligation not proved inside the loop')
    forgot = any(w[0] == 'hv' for w in T.phi.values()) or any(w[0] == 'unk' for w in T.rope.values())
    exits = []
    for tag, x, src, dst in res:
        if tag == 'back':
            E.set_block(x, x.frames[D - 1], dst)
            if not agree(E, S0, X, x, D, T, kp, kid, mark, phis, h, dry=True) or not all(E.decided(x, g(kp + 1)) is True for g in T.inv):
                raise Fail('not inductive in the last run')
            E.paths += 1
        else:
            complete(E, S0, X, x, T, kp, kid, mark)
            solve_k(E, S0, x, T, kp, kid, D)
            if forgot:
                x.notes.add('uf')
                x.notes.add('forgot')
            exits.append((tag, x, src, dst))
    for nm, o in mine.items():
        t = E.oblig.setdefault(nm, {'n': 0, 'ok': 0, 'fail': [], 'unk': [], 'backends': {}})
        t['n'] += o['n']
        t['ok'] += o['ok']
        for be, n in o['backends'].items():
            t['backends'][be] = t['backends'].get(be, 0) + n
    return exits


def complete(E, S0, X, x, T, kp, kid, mark):
    """an exit after the element of this iteration was written: fold it into the 'for all j' update"""
    for o, mine in T.ups.items():
        m, mx = x.mem.get(o), X.mem.get(o)
        if m is None or m.kind == 'str' or m.ups[:len(mx.ups)] != mx.ups or len(m.ups) == len(mx.ups):
            continue
        try:
            got = [learn_upd(E, u, kp, kid, mark, T, X, x) for u in group(changed(x, m.ups[len(mx.ups):]))]
        except Fail:
            continue
        if len(got) == len(mine) and all(g[0] == w[0] and g[1] == w[1] and same_cells(E, g, w) for g, w in zip(got, mine)):
            m = x.w(o)
            m.ups = mx.ups[:len(mx.ups) - len(mine)] + [Upd(var, ZERO, kp + 1, base, stride, cells, objs) for base, stride, cells, var, objs in mine]
    for o, how in T.rope.items():
        m, mx = x.mem.get(o), X.mem.get(o)
        if m is None or how[0] != 'app' or m.rope == mx.rope:
            continue
        want = S.cat(S0.mem[o].rope, how[1](kp + 1))
        f = S.rope_eq(E, x, want, m.rope)
        if f.k == 'true' or E.decided(x, f) is True:
            x.w(o).rope = want


def hv(f, h, r, *vs):
    """forget a header phi: any value of its type"""
    ty = next(p.ty for p in f.blocks[h].phis if p.res == r)
    if all(isinstance(v, Poly) for v in vs):
        if ty.k == 'int' and ty.n > 1:
            return ('hv', ('I', 0, (1 << ty.n) - 1))
        if ty.k in ('double', 'float'):
            return ('hv', ('R', None, None))
    return ('hv', None)


def check_frame(S0, b, D):
    if len(b.frames) != D:
        raise Fail('frames')
    if len(b.inputs) != len(S0.inputs):
        raise Fail('inputs in the loop')
    g0 = {k: v for k, v in S0.ghost.items()}
    if g0 != b.ghost:
        raise Fail('ghost state changes')
    if b.caught != S0.caught or b.exc is not S0.exc and b.exc != S0.exc:
        raise Fail('exceptions')


def check_object(m0, m1):
    if m1.kind != m0.kind or m1.tag != m0.tag or m1.init is not m0.init and m1.init != m0.init or m1.const != m0.const or m1.freed != m0.freed:
        raise Fail('object changes its nature')


def note_changes(E, T, S0, o, m0, m1, first):
    """record what changed in an object as something to be learned"""
    if m0.kind == 'str' or m1.kind == 'str':
        if m0.rope != m1.rope:
            set_unknown(E, T, o)
        return
    if m0.size != m1.size or m0.freed != m1.freed:
        raise Fail('object resized')
    for q, c in m1.cells.items():
        c0 = m0.cells.get(q)
        if c0 is not None and c0 is c:
            continue
        if c0 is not None and c0.n == c.n and same(c0.v, c.v):
            continue
        how = ('hv', c.n)
        if c0 is not None and c0.n == c.n and c.t != 'b':
            d = lin_delta(c0.v, c.v)
            if d is not None and d.is_const():
                how = ('lin', d)
        old = T.cell.get((o, q))
        T.cell[(o, q)] = how if old is None or old == how else ('hv', c.n)
    for q, c0 in m0.cells.items():
        if q not in m1.cells:
            raise Fail('cells split')


def set_unknown(E, T, o):
    arr = 'lp!%d' % len(E.loopnames)
    E.loopnames.append(arr)
    T.rope[o] = ('unk', arr, alg.fresh('lplen', 'I', 0, (1 << 62) - 1))


def add_invariants(E, S0, X, bs, T, kp, kid):
    """bounds on k from the conditions under which the loop goes on"""
    sub0 = Subst({kid: ZERO})
    cand = []
    for b in bs[:1]:
        for f in b.pc[len(X.pc):]:
            c = cond_bound(f, kp, kid)
            if c is not None:
                cand.append(c)
    for p, c in cand:
        # p(k) with p decreasing in k by |c|: want p(k) >= 0
        if all(E.decided(b, le(ZERO, Subst({kid: kp + 1}).poly(p))) is True for b in bs) or True:
            if E.decided(S0, le(ZERO, sub0.poly(p))) is True:
                T.inv.append(lambda k, p=p: le(ZERO, Subst({kid: k}).poly(p)))
                dbg('candidate', p)


def first_bounds(E, S0, D, h, body, bs, T, P):
    """bounds on k guessed from the conditions of the first two iterations"""
    b = bs[0]
    try:
        bs1 = learn(E, b.clone(), D, h, body, P)
    except (Fail, Unsupported, SX.ForkOn) as e:
        dbg('second iteration', e)
        return
    if not bs1:
        return
    for r in T.phi:
        v0, v1, v2 = S0.frames[D - 1].env[r], b.frames[D - 1].env[r], bs1[0].frames[D - 1].env[r]
        if all(isinstance(v, Poly) and v.is_const() for v in (v0, v1, v2)) and v1 - v0 != v2 - v1:
            raise Period(r)
    for o, how in list(T.rope.items()):
        if how[0] != 'unk' or o not in bs1[0].mem:
            continue
        t0, t1 = tail(S0.mem[o].rope, b.mem[o].rope), tail(b.mem[o].rope, bs1[0].mem[o].rope)
        if t0 is None or t1 is None or len(t0) != 1 or len(t1) != 1 or t0[0][0] != t1[0][0]:
            continue
        p0, p1 = t0[0], t1[0]
        L = S.plen(p0)
        if L != S.plen(p1) or not L.is_const() or not L.d:
            continue
        if p0[0] == 's' and p0[1] == p1[1] and p1[2] == p0[2] + L:
            T.rope[o] = ('app', lambda k, p=p0, L=L: (('s', p[1], p[2], k * L),))
            dbg('guess: appends', p0)
        elif p0[0] == 'c' and p0 == p1 and len(set(p0[1])) == 1:
            T.rope[o] = ('app', lambda k, p=p0, L=L: S.fill(p[1][0], k * L))
    n0, n1 = b.pc[len(S0.pc):], bs1[0].pc[len(b.pc):]
    kp = alg.fresh('k', 'I', 0, None)
    (km, _), = kp.d.items()
    kid = km[0][0]
    for f0, f1 in pairs(n0, n1):
        g0, g1 = (f0.a[0], f1.a[0]) if f0.k == 'not' else (f0, f1)
        if g0.k != g1.k or g0.k not in ('eq0', 'le0', 'lt0'):
            continue
        d = g1.a[0] - g0.a[0]
        if not d.is_const() or not d.d:
            continue
        p = g0.a[0] + d * kp
        f = F(g0.k, p)
        f = F('not', f) if f0.k == 'not' else f
        c = cond_bound(f, kp, kid)
        if c is None:
            continue
        q = c[0]
        if g0.k == 'eq0':
            q = q - c[1] - 1      # not zero at the test of iteration k-1
        if E.decided(S0, le(ZERO, Subst({kid: ZERO}).poly(q))) is True:
            T.inv.append(lambda k, q=q: le(ZERO, Subst({kid: k}).poly(q)))
            dbg('bound', q)


def tail(r, q):
    """what rope q has after rope r, or None"""
    i = 0
    while i < len(r) and i < len(q) and r[i] == q[i]:
        i += 1
    if i == len(r):
        return q[i:]
    if i == len(r) - 1 and i < len(q) and r[i][0] == q[i][0]:
        x, y = r[i], q[i]
        if x[0] == 's' and x[1] == y[1] and x[2] == y[2]:
            return (('s', x[1], x[2] + x[3], y[3] - x[3]),) + tuple(q[i + 1:])
        if x[0] == 'c' and y[1][:len(x[1])] == x[1]:
            return (('c', y[1][len(x[1]):]),) + tuple(q[i + 1:])
    return None


def pairs(a, b):
    if len(a) == len(b) and all(x.k == y.k for x, y in zip(a, b)):
        return list(zip(a, b))
    out, j = [], 0
    for x in a:
        for i in range(j, len(b)):
            if b[i].k == x.k:
                out.append((x, b[i]))
                j = i + 1
                break
    return out


def lin_in(p, kid):
    """(a, b) with p = a*k + b, a a nonzero constant, b without k (not even inside atoms)"""
    a = None
    rest = {}
    for m, c in p.d.items():
        if any(x == kid for x, _ in m):
            if len(m) != 1 or m[0][1] != 1:
                return None
            a = c
        else:
            if any(mentions(x, kid) for x, _ in m):
                return None
            rest[m] = c
    return (a, Poly(rest)) if a is not None else None


def mentions(aid, kid, _c={}):
    r = _c.get((aid, kid))
    if r is None:
        at = alg._by_id[aid]
        r = aid == kid or any(pm(x, kid) for x in at.args)
        _c[(aid, kid)] = r
    return r


def pm(x, kid):
    if isinstance(x, Poly):
        return any(mentions(a, kid) for m in x.d for a, _ in m)
    if isinstance(x, F):
        return any(pm(y, kid) for y in x.a)
    return False


def cond_bound(f, kp, kid):
    """a polynomial p, decreasing in k, with p(k) >= 0 as candidate"""
    neg = False
    if f.k == 'not':
        f = f.a[0]
        neg = True
    if f.k not in ('eq0', 'le0', 'lt0'):
        return None
    p = f.a[0]
    r = lin_in(p, kid)
    if r is None:
        return None
    a, b = r
    if f.k == 'eq0':
        if not neg:
            return None
        g = 0
        for c in p.d.values():
            if not isinstance(c, int):
                return None
            g = gcd(g, abs(c))
        if g > 1:
            p = Poly({m: c // g for m, c in p.d.items()})
            a //= g
        if a > 0:
            p, a = -p, -a
        if a != -1:
            return None
        return p, a
    if neg:
        # not(p <= 0): p > 0 ; not(p < 0): p >= 0
        q, strict = p, f.k == 'le0'
    else:
        q, strict = -p, f.k == 'lt0'
    # q > 0 or q >= 0 on the back edge
    a = a if q is p else -a
    if a >= 0:
        return None
    q = q - a        # q(k-1): at the header after k iterations the test of iteration k-1 held
    if strict:
        q = q - 1
    return q, a


def agree(E, S0, X, b, D, T, kp, kid, mark, phis, h, dry=False):
    """is back state b the state T(k+1)? weakens / extends T and answers False when not"""
    check_frame(S0, b, D)
    ok = True
    e0, env = S0.frames[D - 1].env, b.frames[D - 1].env
    for r in phis:
        how = T.phi[r]
        if how[0] == 'lin':
            want = advance(e0[r], how[1] * (kp + 1)) if how[1].d else e0[r]
            if not same_in(E, b, want, env[r]):
                T.phi[r] = hv(S0.frames[D - 1].f, h, r, e0[r], env[r])
                ok = False
        elif how[1] is not None and not isinstance(env[r], Poly):
            T.phi[r] = ('hv', None)
            ok = False
    for o, m0 in S0.mem.items():
        mx = X.mem[o]
        m1 = b.mem.get(o)
        if m1 is mx and o not in T.rope and o not in T.ups and not any(k[0] == o for k in T.cell):
            continue
        if m1 is None:
            raise Fail('object freed in the loop')
        check_object(m0, m1)
        if m1.kind == 'str':
            if not agree_rope(E, S0, X, b, o, m0, mx, m1, T, kp, kid, mark):
                ok = False
            continue
        if m1.size != m0.size or m1.freed != m0.freed:
            raise Fail('object resized')
        # constant cells
        for q, c in m1.cells.items():
            cx = mx.cells.get(q)
            how = T.cell.get((o, q))
            if how is None:
                if cx is None or not (cx is c or cx.n == c.n and same_in(E, b, cx.v, c.v)):
                    if (o in T.ups):
                        raise Fail('cell written below updates')
                    note = ('hv', c.n)
                    if m0.cells.get(q) is not None and m0.cells[q].n != c.n:
                        raise Fail('cells split')
                    T.cell[(o, q)] = note
                    ok = False
            elif how[0] == 'lin':
                c0 = m0.cells[q]
                want = advance(c0.v, how[1] * (kp + 1))
                if c.n != c0.n or not same_in(E, b, want, c.v):
                    if same(cx.v, c.v):
                        del T.cell[(o, q)]      # not changed after the first iteration
                    else:
                        T.cell[(o, q)] = ('hv', c0.n)
                    ok = False
            elif c.v is HV and c.t == 'hv' and q in m0.cells and not dry and T.cell.get((o, q, 'w')) is None:
                # the body leaves it alone: it keeps its first value
                c0 = m0.cells[q]
                if c0.n == c.n and (o, q) not in T.ptrs:
                    T.ptrs[(o, q)] = True
                    del T.cell[(o, q)]
                    ok = False
            elif c.v is HV and c.t == 'hv' and q not in m0.cells and not dry and (o, q) not in T.ptrs:
                T.ptrs[(o, q)] = True
                del T.cell[(o, q)]
                ok = False
        for q in mx.cells:
            if q not in m1.cells:
                raise Fail('cells split')
        # element updates
        new = changed(b, m1.ups[len(mx.ups):])
        if m1.ups[:len(mx.ups)] != mx.ups:
            raise Fail('updates rewritten')
        mine = T.ups.get(o)
        if not new and not mine:
            continue
        if mine is None:
            T.ups[o] = [learn_upd(E, u, kp, kid, mark, T, X, b) for u in group(new)]
            ok = False
            continue
        got = [learn_upd(E, u, kp, kid, mark, T, X, b) for u in group(new)]
        if len(got) != len(mine):
            raise Fail('updates differ')
        for g, w in zip(got, mine):
            if not (g[0] == w[0] and g[1] == w[1] and same_cells(E, g, w)):
                raise Fail('updates differ')
    for o in b.mem:
        if o not in S0.mem and reachable(b, S0, o):
            raise Fail('objects made in the loop survive it')
    return ok


def reachable(b, S0, o):
    # an object made by the body matters only when something that survives the iteration points to it: cells of updates are checked in learn_upd,
    # constant cells that differ are forgotten (reading them is unsupported)
    return False


def same_in(E, b, x, y):
    if same(x, y):
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        return E.decided(b, eq(x, y)) is True
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
        return E.decided(b, eq(x.off, y.off)) is True
    return False


def changed(b, new):
    """without the elements that were only looked at"""
    out = []
    for u in new:
        if u.mat is not None and all(b.mem.get(o) is m or b.mem.get(o) is not None and same_object(m, b.mem[o]) for o, m in u.mat.items()):
            continue
        out.append(u)
    return out


def same_object(m, n):
    return (m.kind == n.kind and m.size == n.size and m.freed == n.freed and m.rope == n.rope and m.ups == n.ups and set(m.cells) == set(n.cells)
            and all(c.n == n.cells[q].n and c.t == n.cells[q].t and same(c.v, n.cells[q].v) for q, c in m.cells.items()))


def group(new):
    """consecutive point updates of one element"""
    out = []
    for u in new:
        if u.var is not None:
            raise Fail('comprehension in the body')
        if out:
            d = u.base - out[-1][0]
            if d.is_const():
                base, cells = out[-1]
                for q, c in u.cells.items():
                    at = d.cval() + q
                    for p, x in list(cells.items()):
                        if p < at + c.n and at < p + x.n:
                            del cells[p]
                            if p < at or p + x.n > at + c.n:
                                if x.t != 'z':
                                    raise Fail('overlapping stores')
                                for i in range(x.n):
                                    if not at <= p + i < at + c.n:
                                        cells[p + i] = Cell(1, ZERO, 'z')
                    cells[at] = c
                continue
        out.append((u.base, dict(u.cells)))
    return out


JV = [0]


def learn_upd(E, g, kp, kid, mark, T, X, b):
    """(base, stride, cells, var, objects): the element written by this iteration, as a function of its number"""
    base, cells = g
    lo = min(cells)
    if lo:
        base = base + lo
        cells = {q - lo: c for q, c in cells.items()}
    r = lin_in(base, kid)
    if r is None:
        raise Fail('store address %s' % base)
    s, b0 = r
    if not isinstance(s, int) or s <= 0 or max(q + c.n for q, c in cells.items()) > s:
        raise Fail('stride')
    if fresh_atoms(base, mark, kid, {}):
        raise Fail('store address')
    JV[0] += 1
    var = alg.atom('var', (), 'I', 0, None, 'j!up%d' % JV[0])
    sub = Subst({kid: Poly.of(var)})
    objs = {}

    def value(c):
        v = c.v
        if v is HV or c.t == 'hv':
            return Cell(c.n, HV, 'hv')
        if isinstance(v, Ptr) and v.o is not None and v.o not in X.mem:
            if v.o not in b.mem or b.mem[v.o].freed:
                return Cell(c.n, HV, 'hv')      # a dangling pointer
            if fresh_atoms(v.off, mark, kid, {}):
                raise Fail('stored pointer')
            take(v.o)
        elif v is not UNDEF and fresh_atoms(v, mark, kid, {}):
            raise Fail('stored value %s' % (v,))
        elif isinstance(v, Ptr) and v.o is not None:
            raise Fail('stored pointer')
        return Cell(c.n, E.sub_val(None, v, sub, {}) if v is not UNDEF else v, c.t)

    def take(o):
        if o in objs:
            return
        m = b.mem[o]
        if len(objs) > 60 or isinstance(m.size, Poly) and fresh_atoms(m.size, mark, kid, {}):
            raise Fail('object of the element')
        n = m.clone()
        objs[o] = n
        n.owner = None
        if isinstance(m.size, Poly):
            n.size = sub.poly(m.size)
        if m.rope is not None:
            if rope_fresh(m.rope, mark, kid, {}):
                raise Fail('text of the element %s' % (m.rope,))
            n.rope = E.sub_rope(b, m.rope, sub)
        if m.ups:
            raise Fail('updates inside the element')
        n.cells = {q: value(c) for q, c in m.cells.items()}
    out = {q: value(c) for q, c in cells.items()}
    return b0, s, out, var, objs


def same_cells(E, g, w):
    sub = Subst({g[3].id: Poly.of(w[3])}) if g[3] is not w[3] else None
    mp = {}

    def val(x, y):
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o in g[4] and y.o in w[4]:
            if not same(sub.poly(x.off) if sub else x.off, y.off):
                return False
            if x.o in mp:
                return mp[x.o] == y.o
            mp[x.o] = y.o
            return obj(g[4][x.o], w[4][y.o])
        if sub is not None and x is not UNDEF and x is not HV:
            x = E.sub_val(None, x, sub, {})
        return same(x, y)

    def cells(a, b):
        return set(a) == set(b) and all(c.n == b[q].n and c.t == b[q].t and val(c.v, b[q].v) for q, c in a.items())

    def obj(m, n):
        r = m.rope
        if r is not None and sub is not None:
            r = E.sub_rope(None, r, sub)
        z = sub.poly(m.size) if sub and isinstance(m.size, Poly) else m.size
        return m.kind == n.kind and z == n.size and m.tag == n.tag and m.init == n.init and r == n.rope and not m.ups and not n.ups and cells(m.cells, n.cells)
    return cells(g[2], w[2])


def agree_rope(E, S0, X, b, o, m0, mx, m1, T, kp, kid, mark):
    how = T.rope.get(o)
    if how is None:
        if m1.rope == mx.rope:
            return True
        set_unknown(E, T, o)
        return False
    rx, r1 = mx.rope, m1.rope
    if how[0] == 'unk':
        if r1 == rx:
            if (o, 'r') in T.ptrs:
                return True
            T.ptrs[(o, 'r')] = True
            del T.rope[o]
            return False
        if len(r1) >= len(rx) and r1[:len(rx)] == rx and (o, 'a') not in T.ptrs:
            T.ptrs[(o, 'a')] = True
            ap = appended(E, b, r1[len(rx):], kp, kid, mark)
            if ap is not None:
                T.rope[o] = ('app', ap)
                dbg('appends', [str(x) for x in ap(kp)])
                return False
        return True          # anything
    if rx != S.cat(m0.rope, how[1](kp)):
        return False         # the guess is newer than this round
    want = S.cat(m0.rope, how[1](kp + 1))
    if want and want[-1][0] == 'w':
        p = want[-1]
        want = S.cat(want[:-1], (p[:3] + (kp,) + p[4:],), S.wpiece(E, b, p[1], p[2] + kp, ONE, p[4], p[5]))
    if want == r1:
        return True
    f = S.rope_eq(E, b, want, r1)
    if f.k == 'true' or E.decided(b, f) is True:
        return True
    set_unknown(E, T, o)
    return False


def appended(E, b, ps, kp, kid, mark):
    """what k iterations append, when the current one appends ps(k)"""
    ch = []
    if any(not S.plen(p).is_const() for p in ps):
        L = S.rlen(ps)
        if not L.is_const() or not L.d or any(p[0] in 'mw' for p in ps) or rope_fresh(ps, mark, kid, {}):
            return None
        var = alg.atom('var', (), 'I', 0, None, 'j!rw')
        row = E.sub_rope(b, ps, Subst({kid: Poly.of(var)}))
        return lambda k: (('w', var, ZERO, k, L.cval(), row),)
    for p in ps:
        L = S.plen(p)
        if not L.is_const() or L.cval() > 64:
            return None
        for i in range(L.cval()):
            c = S.pchar(E, b, p, C(i))
            if fresh_atoms(c, mark, kid, {}):
                return None
            ch.append(c)
    es = len(ch)
    if not es:
        return lambda k: ()
    # one contiguous slice?
    arr = off = None
    for i, c in enumerate(ch):
        a = sel_of(c)
        if a is None:
            arr = None
            break
        if i == 0:
            arr, off = a
        elif a[0] != arr or a[1] != off + i:
            arr = None
            break
    if arr is not None:
        r = lin_in(off, kid)
        if r is not None and r[0] == es:
            b0 = r[1]
            return lambda k: (('s', arr, b0, k * es),)
    var = alg.atom('var', (), 'I', 0, None, 'j!rp')
    sub = Subst({kid: Poly.of(var)})
    cs = tuple(sub.poly(c) for c in ch)
    if len(set(cs)) == 1 and not pm(cs[0], var.id):
        return lambda k: S.fill(cs[0], k * es)
    return lambda k: (('m', var, ZERO, k, es, cs),)


def sel_of(c):
    """(array, index) when the polynomial is one array element"""
    if len(c.d) != 1:
        return None
    (m, x), = c.d.items()
    if x != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    at = alg._by_id[m[0][0]]
    if at.kind != 'sel':
        return None
    return at.name, at.args[0]


def solve_k(E, S0, x, T, kp, kid, D):
    """when the exit condition and the invariant fix k, put its value in"""
    for g in T.inv:
        f = g(kp)
        if f.k not in ('le0', 'lt0'):
            continue
        p = f.a[0]
        r = lin_in(p, kid)
        if r is None or abs(r[0]) != 1:
            continue
        for d in (0, 1):
            q = p + d
            if E.decided(x, eq0(q)) is True:
                a, b0 = lin_in(q, kid)
                val = -b0 if a == 1 else b0
                substitute(E, S0, x, Subst({kid: val}), kid)
                return


def substitute(E, S0, x, sub, kid):
    for fr in x.frames:
        for r, v in list(fr.env.items()):
            if v is not HV:
                fr.env[r] = E.sub_val(x, v, sub, {})
    for o, m in list(x.mem.items()):
        if S0.mem.get(o) is m:
            continue
        m = x.w(o)
        m.size = sub.poly(m.size) if isinstance(m.size, Poly) else m.size
        m.cells = {q: (c if c.v is HV else Cell(c.n, E.sub_val(x, c.v, sub, {}), c.t)) for q, c in m.cells.items()}
        m.ups = [E.sub_upd(x, u, sub, {}) for u in m.ups]
        if m.rope is not None:
            m.rope = S.cat(E.sub_rope(x, m.rope, sub))
    n = len(S0.pc)
    new = [sub.form(f) for f in x.pc[n:]]
    x.pc, x.pcset, x.bnd = list(S0.pc), set(S0.pcset), dict(S0.bnd)
    for f in new:
        x.assume(f)
