"""Parser for the textual LLVM 18 IR subset clang emits for the contracts."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9\\]*))
|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
|(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
|(?P<attr>\#\d+)
|(?P<dots>\.\.\.)
|(?P<p>[\[\]{}()<>,=*|:])
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out, pos, n = [], 0, len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            rest = s[pos:].strip()
            if not rest or rest.startswith(';'):
                break
            raise ParseError("token: " + rest[:80])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    return out


# ---- types -------------------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a', 'n', '_sz', '_al', '_offs')

    def __init__(s, k, a=None, n=None):
        s.k, s.a, s.n = k, a, n
        s._sz = None

    def __repr__(s):
        return f"{s.k}{'' if s.n is None else s.n}{'' if s.a is None else s.a}"


VOID, PTR, DOUBLE, FLOAT, X80, LABEL, META = (Ty('void'), Ty('ptr'), Ty('double'), Ty('float'), Ty('x86_fp80'),
                                             Ty('label'), Ty('metadata'))
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('int', None, n)
    return _ints[n]


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'text', 'bid')

    def __init__(s, op, res, ty, a, x=None):
        s.op, s.res, s.ty, s.a, s.x = op, res, ty, a, x

    def __repr__(s):
        return s.text.strip()


class Block:
    __slots__ = ('name', 'ins', 'preds', 'phis')

    def __init__(s, name):
        s.name, s.ins, s.phis = name, [], []


class Func:
    def __init__(s, name, ret, params):
        s.name, s.ret, s.params = name, ret, params
        s.blocks, s.order, s.vararg = {}, [], False
        s._loops = None


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'zeroext', 'signext',
               'returned', 'immarg', 'inreg', 'nofree', 'swiftself', 'nest', 'writable', 'allocptr', 'allocalign', 'dead_on_unwind'}
PARAM_ATTRS_P = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'range', 'elementtype', 'captures',
                 'preallocated', 'inalloca', 'byref', 'memory', 'initializes', 'nofpclass'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
        'local_unnamed_addr', 'unnamed_addr', 'thread_local', 'noundef', 'fastcc', 'ccc', 'coldcc'}


class P:
    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod

    def peek(s, o=0):
        return s.t[s.i + o] if s.i + o < len(s.t) else (None, None)

    def v(s):
        return s.peek()[1]

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v and s.t[s.i][0] != 'str':
            s.i += 1
            return True
        return False

    def exp(s, v):
        if not s.acc(v):
            raise ParseError(f"expected {v} got {s.t[s.i:s.i+6]}")

    def skip_paren(s):
        s.exp('(')
        d = 1
        while d:
            x = s.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def attrs(s):
        info = {}
        while True:
            k, v = s.peek()
            if v in PARAM_ATTRS:
                s.i += 1
            elif v in PARAM_ATTRS_P:
                s.i += 1
                if s.v() == '(':
                    j = s.i
                    if v in ('sret', 'byval'):
                        s.exp('(')
                        info[v] = s.type()
                        s.exp(')')
                    else:
                        s.skip_paren()
                elif v == 'align':
                    s.i += 1
            elif k == 'attr':
                s.i += 1
            elif k == 'str':
                s.i += 1
                if s.acc('='):
                    s.i += 1
            else:
                return info

    def type(s):
        k, v = s.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = IntTy(int(v[1:]))
            elif v in ('ptr',):
                t = PTR
                if s.v() == 'addrspace':
                    s.i += 1
                    s.skip_paren()
            elif v == 'double':
                t = DOUBLE
            elif v == 'float':
                t = FLOAT
            elif v == 'x86_fp80':
                t = X80
            elif v == 'void':
                t = VOID
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'opaque':
                t = Ty('opaque')
            elif v == 'token':
                t = Ty('token')
            elif v == 'fp128':
                t = Ty('fp128')
            else:
                raise ParseError("type " + v)
        elif v == '[':
            n = int(s.next()[1])
            s.exp('x')
            e = s.type()
            s.exp(']')
            t = Ty('arr', e, n)
        elif v == '{':
            t = Ty('struct', s.types('}'))
        elif v == '<':
            if s.v() == '{':
                s.i += 1
                t = Ty('pstruct', s.types('}'))
                s.exp('>')
            else:
                n = int(s.next()[1])
                s.exp('x')
                e = s.type()
                s.exp('>')
                t = Ty('vec', e, n)
        elif k == 'local':
            t = Ty('named', s.mod, v)
        else:
            raise ParseError(f"type {k} {v}")
        while s.v() == '(' and s.peek()[0] == 'p' and False:
            pass
        return t

    def types(s, close):
        r = []
        if s.acc(close):
            return r
        while True:
            r.append(s.type())
            if s.acc(close):
                return r
            s.exp(',')

    # -- values -----------------------------------------------------------------------
    def value(s, ty):
        k, v = s.next()
        if k == 'local':
            return ('l', v)
        if k == 'glob':
            return ('g', v)
        if k == 'num':
            if ty.k in ('double', 'float', 'x86_fp80'):
                return ('f', Fraction(float(v)), float(v))
            return ('i', int(v))
        if k == 'hex':
            if v.startswith('0xK'):
                n = int(v[3:], 16)
                se, m = n >> 64, n & ((1 << 64) - 1)
                e = se & 0x7fff
                if e == 0x7fff:
                    return ('fspecial', v)
                fr = Fraction(m, 1 << 63) * (Fraction(2) ** (e - 16383))
                fr = -fr if se >> 15 else fr
                return ('f', fr, float(fr), 'x80')
            d = struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0]
            if d != d or d in (float('inf'), float('-inf')):
                return ('fspecial', v, d)
            return ('f', Fraction(d), d)
        if k == 'str':
            return ('bytes', unescape(v))
        if k == 'word':
            if v == 'true':
                return ('i', 1)
            if v == 'false':
                return ('i', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v == 'getelementptr':
                while s.v() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    s.i += 1
                    if s.v() == '(' and s.t[s.i - 1][1] == 'inrange':
                        s.skip_paren()
                s.exp('(')
                st = s.type()
                s.exp(',')
                args = []
                while True:
                    while s.v() in ('inrange',):
                        s.i += 1
                    t = s.type()
                    args.append((t, s.value(t)))
                    if s.acc(')'):
                        break
                    s.exp(',')
                return ('cgep', st, args)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.exp('(')
                t = s.type()
                x = s.value(t)
                s.exp('to')
                t2 = s.type()
                s.exp(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while s.v() in ('nuw', 'nsw'):
                    s.i += 1
                s.exp('(')
                t = s.type()
                a = s.value(t)
                s.exp(',')
                t2 = s.type()
                b = s.value(t2)
                s.exp(')')
                return ('cbin', v, t, a, b)
            if v == 'blockaddress':
                s.skip_paren()
                return ('undef',)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return s.value(ty)
            if v == 'asm':
                while s.peek()[0] != 'str':
                    s.i += 1
                a = s.next()[1]
                s.exp(',')
                s.next()
                return ('asm', a)
            raise ParseError("value " + v)
        if v in ('[', '{', '<'):
            if v == '<' and s.v() == '{':
                s.i += 1
                r = s.agg('}')
                s.exp('>')
                return ('agg', r)
            return ('agg', s.agg({'[': ']', '{': '}', '<': '>'}[v]))
        if k == 'meta':
            return ('meta',)
        raise ParseError(f"value {k} {v}")

    def agg(s, close):
        r = []
        if s.acc(close):
            return r
        while True:
            t = s.type()
            r.append((t, s.value(t)))
            if s.acc(close):
                return r
            s.exp(',')

    def tv(s):
        t = s.type()
        s.attrs()
        return (t, s.value(t))


def unescape(v):
    v = v[2:-1] if v.startswith('c"') else v[1:-1]
    out, i = bytearray(), 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(v[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(v[i]))
            i += 1
    return bytes(out)


FM = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


class Module:
    def __init__(s):
        s.types, s.globals, s.funcs, s.decls, s.aliases = {}, {}, {}, {}, {}

    # layout ---------------------------------------------------------------------------
    def resolve(s, t):
        while t.k == 'named':
            t = s.types[t.n]
        return t

    def size(s, t):
        if t._sz is None:
            s._layout(t)
        return t._sz

    def align(s, t):
        if t._sz is None:
            s._layout(t)
        return t._al

    def _layout(s, t):
        k = t.k
        if k == 'int':
            b = (t.n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            t._sz, t._al = p if b > 8 or True else b, min(p, 16)
        elif k in ('ptr', 'double'):
            t._sz = t._al = 8
        elif k == 'float':
            t._sz = t._al = 4
        elif k in ('x86_fp80', 'fp128'):
            t._sz = t._al = 16
        elif k == 'arr':
            t._al = s.align(t.a)
            t._sz = s.size(t.a) * t.n
        elif k == 'vec':
            t._sz = s.size(t.a) * t.n
            t._al = t._sz
        elif k in ('struct', 'pstruct'):
            off, al, offs = 0, 1, []
            for f in t.a:
                fa = 1 if k == 'pstruct' else s.align(f)
                off = (off + fa - 1) // fa * fa
                offs.append(off)
                off += s.size(f)
                al = max(al, fa)
            t._sz, t._al, t._offs = (off + al - 1) // al * al, al, offs
        elif k == 'named':
            r = s.resolve(t)
            s._layout(r) if r._sz is None else None
            t._sz, t._al = r._sz, r._al
        elif k == 'opaque':
            t._sz, t._al = 0, 1
        else:
            raise ParseError("layout " + k)

    def fields(s, t):
        t = s.resolve(t)
        s.size(t)
        return t, t._offs


def parse_ins(p, line):
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    k, op = p.next()
    x = {}
    while op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    I = lambda ty, a, **kw: Instr(op, res, ty, a, kw)
    if op == 'ret':
        t = p.type()
        return I(t, [] if t.k == 'void' else [p.value(t)])
    if op == 'br':
        t = p.type()
        if t.k == 'label':
            return I(VOID, [], dst=[p.next()[1]])
        c = p.value(t)
        p.exp(',')
        p.type()
        a = p.next()[1]
        p.exp(',')
        p.type()
        b = p.next()[1]
        return I(VOID, [c], dst=[a, b])
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.type()
        d = p.next()[1]
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type()
            cv = p.value(ct)
            p.exp(',')
            p.type()
            cases.append((cv[1], p.next()[1]))
        return I(t, [v], dst=[d] + [c[1] for c in cases], cases=cases)
    if op in ('call', 'invoke'):
        while p.v() in FM or p.v() in LINK:
            p.i += 1
        p.attrs()
        rt = p.type()
        if p.v() == '(':      # full function type
            p.skip_paren()
        k0 = p.peek()
        callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                if p.v() == '...':
                    p.i += 1
                else:
                    t = p.type()
                    at = p.attrs()
                    if t.k == 'metadata':
                        d = 0
                        while not (d == 0 and p.v() in (',', ')')):
                            vv = p.next()[1]
                            d += vv in ('(', '{')
                            d -= vv in (')', '}')
                        args.append((t, ('meta',), at))
                    else:
                        args.append((t, p.value(t), at))
                if p.acc(')'):
                    break
                p.exp(',')
        dst = None
        if op == 'invoke':
            while p.v() != 'to':
                p.i += 1
            p.exp('to')
            p.type()
            a = p.next()[1]
            p.exp('unwind')
            p.type()
            dst = [a, p.next()[1]]
        return I(rt, [a[1] for a in args], callee=callee, at=args, dst=dst)
    if op in BIN or op == 'fneg':
        fl = set()
        while p.v() in ('nuw', 'nsw', 'exact', 'disjoint') or p.v() in FM:
            fl.add(p.next()[1])
        t = p.type()
        a = [p.value(t)]
        if op != 'fneg':
            p.exp(',')
            a.append(p.value(t))
        return I(t, a, fl=fl)
    if op in CAST:
        while p.v() in ('nneg', 'nuw', 'nsw') or p.v() in FM:
            p.i += 1
        t = p.type()
        v = p.value(t)
        p.exp('to')
        t2 = p.type()
        return I(t2, [v], src=t)
    if op in ('icmp', 'fcmp'):
        while p.v() in FM or p.v() == 'samesign':
            p.i += 1
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        return I(t, [a, p.value(t)], pred=pred)
    if op == 'phi':
        while p.v() in FM:
            p.i += 1
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            inc.append((v, p.next()[1]))
            p.exp(']')
            if not p.acc(','):
                break
            if p.peek()[0] == 'meta':
                break
        return I(t, [v for v, _ in inc], inc=inc)
    if op == 'select':
        while p.v() in FM:
            p.i += 1
        tc, c = p.tv()
        p.exp(',')
        t, a = p.tv()
        p.exp(',')
        _, b = p.tv()
        return I(t, [c, a, b], ct=tc)
    if op == 'alloca':
        t = p.type()
        n = ('i', 1)
        if p.acc(',') and p.v() not in ('align', 'addrspace'):
            tt = p.type()
            n = p.value(tt)
        return I(t, [n])
    if op == 'load':
        while p.v() in ('volatile', 'atomic'):
            p.i += 1
        t = p.type()
        p.exp(',')
        _, q = p.tv()
        return I(t, [q])
    if op == 'store':
        while p.v() in ('volatile', 'atomic'):
            p.i += 1
        t, v = p.tv()
        p.exp(',')
        _, q = p.tv()
        return I(t, [v, q])
    if op == 'getelementptr':
        while p.v() in ('inbounds', 'nuw', 'nusw'):
            p.i += 1
        st = p.type()
        p.exp(',')
        args = []
        while True:
            args.append(p.tv())
            if not p.acc(','):
                break
            if p.peek()[0] == 'meta':
                break
        return I(st, [a[1] for a in args], at=[a[0] for a in args])
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return I(t, [v], idx=idx)
    if op == 'insertvalue':
        t, v = p.tv()
        p.exp(',')
        t2, v2 = p.tv()
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return I(t, [v, v2], idx=idx, vt=t2)
    if op == 'extractelement':
        t, v = p.tv()
        p.exp(',')
        _, i = p.tv()
        return I(t, [v, i])
    if op == 'insertelement':
        t, v = p.tv()
        p.exp(',')
        t2, v2 = p.tv()
        p.exp(',')
        _, i = p.tv()
        return I(t, [v, v2, i])
    if op == 'shufflevector':
        t, v = p.tv()
        p.exp(',')
        t2, v2 = p.tv()
        p.exp(',')
        t3, v3 = p.tv()
        return I(t, [v, v2, v3], mt=t3)
    if op == 'unreachable':
        return I(VOID, [])
    if op == 'resume':
        t, v = p.tv()
        return I(t, [v])
    if op == 'landingpad':
        t = p.type()
        cl, cleanup = [], False
        while p.peek()[1]:
            w = p.v()
            if w == 'cleanup':
                p.i += 1
                cleanup = True
            elif w in ('catch', 'filter'):
                p.i += 1
                ct, cv = p.tv()
                cl.append((w, cv))
            else:
                break
        return I(t, [], clauses=cl, cleanup=cleanup)
    if op == 'freeze':
        t, v = p.tv()
        return I(t, [v])
    if op == 'fence':
        return I(VOID, [])
    if op in ('atomicrmw',):
        while p.v() in ('volatile',):
            p.i += 1
        o = p.next()[1]
        _, q = p.tv()
        p.exp(',')
        t, v = p.tv()
        return I(t, [q, v], o=o)
    raise ParseError("op " + op)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!' or ln.startswith(('target', 'source_filename', 'attributes', 'module asm', '$')):
            continue
        if ln[0] == '%':
            p = P(tokenize(ln), m)
            name = p.next()[1]
            p.exp('=')
            p.exp('type')
            m.types[name] = p.type()
        elif ln[0] == '@':
            p = P(tokenize(ln), m)
            name = p.next()[1]
            p.exp('=')
            kind, ext = None, False
            while p.v() not in ('constant', 'global', 'alias', 'ifunc'):
                ext |= p.v() in ('external', 'extern_weak')
                w = p.next()[1]
                if p.v() == '(':
                    p.skip_paren()
            kind = p.next()[1]
            if kind == 'alias':
                p.type()
                p.exp(',')
                _, tgt = p.tv()
                m.aliases[name] = tgt
                continue
            t = p.type()
            init = None if ext else p.value(t)
            m.globals[name] = (t, init, kind == 'constant')
        elif ln.startswith('declare') or ln.startswith('define'):
            isdef = ln.startswith('define')
            p = P(tokenize(ln), m)
            p.next()
            while p.v() in LINK:
                p.i += 1
            p.attrs()
            while p.v() in LINK:
                p.i += 1
            rt = p.type()
            name = p.next()[1]
            p.exp('(')
            params, va, cnt = [], False, 0
            if not p.acc(')'):
                while True:
                    if p.v() == '...':
                        p.i += 1
                        va = True
                    else:
                        t = p.type()
                        at = p.attrs()
                        pn = None
                        if p.peek()[0] == 'local':
                            pn = p.next()[1]
                        else:
                            pn = '%' + str(cnt)
                        cnt += 1
                        params.append((t, pn, at))
                    if p.acc(')'):
                        break
                    p.exp(',')
            f = Func(name, rt, params)
            f.vararg = va
            if not isdef:
                m.decls[name] = f
                continue
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            f.body = body
            f.mod = m
            m.funcs[name] = f
    return m


def materialize(f):
    """Parse a function body on first use."""
    if f.order:
        return f
    m = f.mod
    cur = None
    body = f.body
    j, n = 0, len(body)
    cnt = sum(1 for _, pn, _ in f.params if pn[1:].isdigit())
    while j < n:
        ln = body[j]
        j += 1
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        if ln[0] != ' ':
            lab = ln.split(';')[0].rstrip()
            lab = lab[:lab.rindex(':')]
            cur = Block('%' + lab)
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
            continue
        if cur is None:
            cur = Block('%entry#')
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        if 'switch ' in ln and ln.rstrip().endswith('['):
            while not body[j].strip().startswith(']'):
                ln += ' ' + body[j]
                j += 1
            ln += ' ' + body[j]
            j += 1
        st = ln.strip()
        if (st.startswith('invoke ') or '= invoke ' in st) and ' unwind label ' not in st:
            ln += ' ' + body[j]
            j += 1
        if 'landingpad ' in st and '= landingpad' in st:
            while j < n and body[j].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                ln += ' ' + body[j]
                j += 1
        ins = parse_ins(P(tokenize(ln), m), ln)
        ins.text = ln
        if ins.op == 'phi':
            cur.phis.append(ins)
        else:
            cur.ins.append(ins)
    # the unnamed entry block has an implicit numeric name used by phis: fix up
    entry = f.order[0]
    if entry == '%entry#':
        implicit = '%' + str(cnt)
        b = f.blocks.pop(entry)
        b.name = implicit
        f.blocks[implicit] = b
        f.order[0] = implicit
    return f


def cfg(f):
    succ = {}
    for b in f.order:
        t = f.blocks[b].ins[-1]
        succ[b] = list(dict.fromkeys((t.x or {}).get('dst') or []))
    return succ


def loops(f):
    """header -> set of blocks (natural loops merged per header)."""
    if f._loops is not None:
        return f._loops
    succ = cfg(f)
    pred = {b: [] for b in f.order}
    for b, ss in succ.items():
        for x in ss:
            pred[x].append(b)
    # reverse postorder
    seen, post = set(), []
    st = [(f.order[0], iter(succ[f.order[0]]))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(succ[x])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    idx = {b: k for k, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in pred[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        a, c = q, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom.get(b) in (b, None):
                return False
            b = idom[b]
    L = {}
    for b in rpo:
        for h in succ[b]:
            if h in idx and dom(h, b):
                body = L.setdefault(h, {h})
                stack = [b]
                while stack:
                    y = stack.pop()
                    if y not in body:
                        body.add(y)
                        stack.extend(q for q in pred[y] if q in idx)
    f._loops = L
    return L
