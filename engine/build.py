import struct
"""From a contract file to verification-ready IR: compile the real headers of /repo with clang, replace the bodies
of the library functions that have an assumed contract by declarations, optimise, parse."""
import os, re, subprocess
import irparse, models

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ['-I' + REPO + '/include', '-I' + VERIF + '/contracts']
LL = '/usr/lib/llvm-18/bin/'
CXX = ['clang++', '-std=c++14', '-include', 'cstdint', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-discard-value-names', '-fno-vectorize',
       '-fno-slp-vectorize', '-ffp-contract=off', '-DBOOST_UBLAS_NDEBUG', '-DVP_SYMBOLIC', '-Wno-everything', '-S', '-emit-llvm']


class BuildError(Exception):
    pass


def run(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stderr[:6000])
    return r


_DEF = re.compile(r'^define .*?(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))\(', re.M)
_REF = re.compile(r'@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)')


def callgraph(text):
    """function -> referenced names, from textual IR"""
    g = {}
    cur = None
    for line in text.split('\n'):
        if line.startswith('define '):
            m = _DEF.match(line)
            cur = m.group(1)
            g[cur] = set()
            continue
        if line.startswith('}'):
            cur = None
            continue
        if cur and '@' in line:
            g[cur].update(_REF.findall(line))
    return g


def constants(text):
    """constants in the generated code; those the reference tree does not have tell the native search where to look first"""
    out = set()
    for x in re.findall(r'(?:,|\bi(?:8|16|32|64|128)) (-?\d+)(?=[,\s)\]])', text):
        if -2**62 < int(x) < 2**62 and abs(int(x)) > 1:
            out.add('i %d' % int(x))
    for x in re.findall(r'(?:,|\bdouble|\bfloat) (-?\d\.\d+e[+-]\d+|0x[0-9A-F]{16})(?=[,\s)\]])', text):
        d = struct.unpack('>d', bytes.fromhex(x[2:]))[0] if x.startswith('0x') else float(x)
        if d == d and abs(d) < 1e300:
            out.add('r %.17g' % d)
    for x in re.findall(r' c"((?:[^"\\]|\\[0-9A-F]{2})*)"', text):
        b = re.sub(rb'\\([0-9A-F]{2})', lambda m: bytes([int(m.group(1), 16)]), x.encode('latin1')).rstrip(b'\0')
        if 0 < len(b) <= 80:
            out.add('s ' + b.hex())
    return out


def to_ir(src, wd, tag, only=None):
    raw = f'{wd}/{tag}.raw.ll'
    run(CXX + INC + [src, '-o', raw])
    text = open(raw).read()
    g = callgraph(text)
    contracts = sorted(n[1:] for n in g if n.startswith('@contract_'))
    if only:
        contracts = [c for c in contracts if re.search(only, c)]
    names = [n[1:].strip('"') for n in g]
    models.demangle_many(names)
    M = models.Models()
    kill = [n for n in names if not n.startswith('contract_') and M.find(n) is not None]
    killset = {n for n in kill}
    # functions of the repository reachable from each contract (before inlining)
    reach = {}
    for c in contracts:
        seen, stack = set(), ['@' + c]
        while stack:
            x = stack.pop()
            if x in seen or x[1:].strip('"') in killset:
                continue
            seen.add(x)
            stack.extend(y for y in g.get(x, ()) if y in g)
        fns = set()
        for x in seen:
            d = models.demangle(x[1:].strip('"'))
            h = short(d)
            if h:
                fns.add(h)
        reach[c] = sorted(fns)
    # predicates handed to library functions that are replaced by their contract: kept, to be evaluated
    preds, keep = {}, set()
    for n in kill:
        d = models.demangle(n)
        if '{lambda(' not in d:
            continue
        nm = '@' + n if '@' + n in g else '@"' + n + '"'
        seen, stack, ops = set(), [nm], []
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x != nm and re.search(r'\{lambda\([^)]*\)#\d+\}::operator\(\)\([^)]*\) const$', models.demangle(x[1:].strip('"'))):
                ops.append(x)
                continue
            stack.extend(y for y in g.get(x, ()) if y in g)
        preds[nm] = ops
        keep.update(ops)
    rsp = f'{wd}/{tag}.rsp'
    cut = f'{wd}/{tag}.cut.bc'
    if kill:
        with open(rsp, 'w') as fh:
            fh.write('\n'.join('--func=' + n for n in kill))
        run([LL + 'llvm-extract', '--delete', '@' + rsp, raw, '-o', cut])
    else:
        cut = raw
    opt = f'{wd}/{tag}.opt.ll'
    run([LL + 'opt', '-S', '-passes=internalize,globaldce,default<O1>', '-internalize-public-api-list=' + ','.join(contracts + sorted(x[1:].strip('"') for x in keep)), cut, '-o', opt])
    mod = irparse.parse_module(open(opt).read())
    mod.preds = preds
    mod.constants = constants(text)
    models.demangle_many([n[1:].strip('"') for n in list(mod.decls) + list(mod.funcs)])
    return mod, contracts, reach


def short(d):
    """readable name of a repository function, or None for library code"""
    i = d.find('(')
    # strip template arguments
    out, depth = [], 0
    for ch in d:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    s = ''.join(out)
    m = re.search(r'(boost::astronomy::[\w:~]+(?:::operator[^\s(]+)?)\s*\(', s)
    if not m:
        m = re.search(r'^(?:[\w:]+ )?((?:column_vector|extract_coordinates|ha_dec_horizon|ha_dec_ra_dec|ecliptic_to_ra_dec|ra_dec_to_ecliptic|galactic_to_ra_dec|ra_dec_to_galactic|obliquity|cartesian_to_spherical|julian_date|GST|LST|decimal_hour)[\w:~]*)\(', s)
        if not m:
            return None
    n = m.group(1)
    if not n.startswith('boost::astronomy'):
        return n
    # the function itself must live in the namespace (not merely an argument)
    head = s[:m.start()]
    if '(' in head:
        return None
    return n


def native(src, wd, tag, sanitize=True):
    exe = f'{wd}/{tag}.native'
    cmd = ['clang++', '-std=c++14', '-include', 'cstdint', '-O1', '-g0', '-ffp-contract=off', '-DBOOST_UBLAS_NDEBUG', '-DVP_NATIVE', '-Wno-everything'] + INC + [src, VERIF + '/engine/native.cpp', '-o', exe]
    if sanitize:
        cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']
    cmd += ['-lboost_filesystem', '-lboost_system'] if False else []
    run(cmd)
    return exe
