#!/usr/bin/env python3-vt
"""check.py <property>: prove the contracts of one property on /repo's current tree; replay what is refuted."""
import sys, os, json, time, glob, shutil, tempfile, subprocess, re, traceback, signal, hashlib
import concurrent.futures as cf
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import build, symex, models
VERIF = build.VERIF

TRUSTED = ['clang 18 front end and its -O1 middle end (LLVM IR of the real headers is what is verified)',
           'engine/*.py: IR parser, symbolic semantics, loop induction, polynomial identity prover',
           'z3 4.x (python z3-solver) and cvc5 for the obligations that are not algebraic identities or interval facts']


def prove_one(mod, contract, budget, q):
    """runs in a forked child"""
    import alg
    t0 = time.time()
    def run(nosum, budget):
        E = symex.Exec(mod, models.Models(), models.demangle, budget=budget)
        E.nosum = nosum
        err = None
        try:
            E.run_contract(contract)
        except symex.Unsupported as e:
            err = 'unsupported: ' + str(e)[:400]
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            err = 'engine: ' + type(e).__name__ + ' ' + str(e)[:300] + ' ' + traceback.format_exc()[-600:]
        return E, err
    E, err = run(False, budget)
    if E.summaries and (err or any(o['unk'] for o in E.oblig.values())) and not any(o['fail'] for o in E.oblig.values()):
        # an induction that does not carry the proof: decide the contract within the bound on its iterations instead
        E2, err2 = run(True, budget - (time.time() - t0))
        if not err2:
            E, err = E2, err2
    obs = {}
    for k, o in E.oblig.items():
        obs[k] = {'n': o['n'], 'ok': o['ok'], 'fail': o['fail'], 'unk': o['unk'], 'backends': o['backends']}
    q.put({'contract': contract, 'error': err, 'bounded': E.bounded, 'paths': E.paths, 'returns': E.returns, 'steps': E.steps, 'oblig': obs, 'wall': round(time.time() - t0, 3),
           'solver_s': round(E.sol.time, 3), 'summaries': E.summaries,
           'assumed': sorted({models.demangle(k)[:140] for k in E.libcalls if not k.startswith('llvm.') and not k.startswith('vp_')})})


def prove_all(jobs, budget, workers, deadline, hurry=None):
    """jobs: [(mod, contract)]"""
    ctx = mp.get_context('fork')
    pending = list(jobs)
    live = {}
    res = []
    while pending or live:
        if hurry and hurry[0]:
            deadline = min(deadline, hurry[0] + 45)      # a failing input is known already
        while pending and time.time() > deadline:
            res.append({'contract': pending.pop(0)[1], 'error': 'engine: time limit', 'oblig': {}, 'bounded': None, 'paths': 0, 'returns': 0, 'steps': 0, 'wall': 0, 'solver_s': 0, 'summaries': 0, 'assumed': []})
        while pending and len(live) < workers:
            mod, c = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=prove_one, args=(mod, c, budget, q))
            p.start()
            live[p] = (c, q, time.time())
        time.sleep(0.02)
        for p in list(live):
            c, q, t = live[p]
            if not q.empty():
                res.append(q.get())
                p.join()
                del live[p]
            elif not p.is_alive():
                if not q.empty():
                    continue
                res.append({'contract': c, 'error': 'engine: worker died (%s)' % p.exitcode, 'oblig': {}, 'bounded': None, 'paths': 0, 'returns': 0, 'steps': 0, 'wall': 0, 'solver_s': 0, 'summaries': 0, 'assumed': []})
                del live[p]
            elif time.time() - t > budget + 60 or time.time() > deadline:
                p.kill()
                p.join()
                res.append({'contract': c, 'error': 'engine: time limit', 'oblig': {}, 'bounded': None, 'paths': 0, 'returns': 0, 'steps': 0, 'wall': budget, 'solver_s': 0, 'summaries': 0, 'assumed': []})
                del live[p]
    return res


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0:exitcode=77')


def run_native(cmd, wd, timeout, dic=None):
    """-> (rc, stdout, stderr); the native runs live in a scratch directory"""
    try:
        r = subprocess.run(cmd, capture_output=True, cwd=wd, timeout=timeout, env=dict(ENV, VP_DICT=dic) if dic else ENV)
        return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1'), (e.stderr or b'').decode('latin1')


def parse_native(out):
    fails, done = [], {}
    cur = None
    intape = False
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            cur = {'contract': l[5:], 'obligations': [], 'tape': []}
            intape = False
        elif cur is not None and l.startswith('OBLIGATION '):
            cur['obligations'].append(l[11:])
        elif cur is not None and l == 'TAPE':
            intape = True
        elif cur is not None and l == 'END':
            fails.append(cur)
            cur = None
        elif cur is not None and intape:
            cur['tape'].append(l)
        elif l.startswith('DONE '):
            w = l.split()
            done[w[1]] = {'ran': int(w[3]), 'skipped': int(w[5]), 'checks': int(w[7])}
    return fails, done


def sample(exe, wd, contract, seed, n, timeout, dic=None):
    pf = tempfile.mktemp(dir=wd)
    sd = tempfile.mkdtemp(dir=wd)
    rc, out, err = run_native([exe, 'sample', pf, str(seed), str(n), contract], sd, timeout, dic)
    fails, done = parse_native(out)
    if rc not in (0, 1):
        k = 0
        try:
            k = int.from_bytes(open(pf, 'rb').read()[200:208], 'little')
        except OSError:
            pass
        if rc == 'timeout':
            # a hang counts as a failure only when the one sample reproduces it on its own
            rc2, out2, err2 = run_native([exe, 'one', pf, str(seed), str(k), contract], sd, 60, dic)
            if rc2 == 'timeout':
                fails.append({'contract': contract, 'obligations': ['termination (sample %d of seed %d does not finish in 60 s)' % (k, seed)], 'tape': []})
            done.setdefault(contract, {'ran': k, 'skipped': 0, 'checks': 0})
        else:
            rc2, out2, err2 = run_native([exe, 'one', pf, str(seed), str(k), contract], sd, 60, dic)
            if rc2 not in (0, 'timeout'):
                fails.append({'contract': contract, 'obligations': ['no undefined behaviour or crash (sample %d of seed %d): %s' % (k, seed, err2[:600])], 'tape': []})
    shutil.rmtree(sd, ignore_errors=True)
    return fails, done


def tape_text(tape):
    L = []
    for t in tape:
        if t['value'] is None:
            return None
        nm = t['name'].replace(' ', '_')
        if t['kind'] == 'real':
            L.append('r %s %.17g' % (nm, t['value']))
        elif t['kind'] == 'str':
            L.append('s %s %s.' % (nm, ''.join('%02x' % b for b in t['value'])))
        elif t['kind'] == 'bits':
            L.append('b %s %d' % (nm, t['value']))
        else:
            L.append('i %s %d' % (nm, t['value']))
    return '\n'.join(L) + '\n'


def replay(exe, wd, contract, text):
    tf = tempfile.mktemp(dir=wd)
    open(tf, 'w').write(text)
    sd = tempfile.mkdtemp(dir=wd)
    rc, out, err = run_native([exe, 'tape', tf + '.p', contract, tf], sd, 60)
    shutil.rmtree(sd, ignore_errors=True)
    fails, _ = parse_native(out)
    if fails:
        return fails[0]
    if rc not in (0, 1, 3):
        return {'contract': contract, 'obligations': ['crash or hang (%s): %s' % (rc, err[:600])], 'tape': text.split('\n')}
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    only = None
    for a in sys.argv[2:]:
        if a.startswith('--only='):
            only = a[7:]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix='vp_%s_' % prop, dir=os.environ.get('VP_TMP', '/tmp'))
    try:
        rc = check(prop, tier, seed, wd, t0, only)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def log(*a):
    print(*a, flush=True)


def check(prop, tier, seed, wd, t0, only):
    files = sorted(glob.glob(f'{VERIF}/contracts/{prop}*.cpp'))
    known = json.load(open(VERIF + '/known_findings.json'))
    expected = set(json.load(open(VERIF + '/contracts/expected.json')).get(prop, []))
    kf = {(k['property'], k['contract']): k for k in known['known'] if k['property'] == prop}
    budget = 200 if tier == 'quick' else 1500
    nsamp = 300 if tier == 'quick' else 20000
    workers = max(1, (os.cpu_count() or 4))
    ex = cf.ThreadPoolExecutor(8)
    irs = {f: ex.submit(build.to_ir, f, wd, os.path.basename(f)[:-4], only) for f in files}
    nats = {f: ex.submit(build.native, f, wd, os.path.basename(f)[:-4]) for f in files}
    jobs, where, reach = [], {}, {}
    builderr = []
    for f in files:
        try:
            mod, cs, rc = irs[f].result()
        except build.BuildError as e:
            builderr.append((f, str(e)))
            continue
        reach.update(rc)
        for c in cs:
            jobs.append((mod, c))
            where[c] = f
    consts = set().union(*[m.constants for m, _ in jobs]) if jobs else set()
    ref = json.load(open(VERIF + '/contracts/constants.json')).get(prop, [])
    fresh = sorted(consts - set(ref))[:400] if ref else []
    # bounded conformance runs of the same contracts on the compiled code (never counted as proved), beside the proofs
    dic = None
    if fresh:
        dic = wd + '/dict'
        open(dic, 'w').write('\n'.join(fresh) + '\n')
    hurry, futs, futd, exes = [0], {}, {}, {}
    ex2 = cf.ThreadPoolExecutor(4 if len(jobs) > 4 else 8)

    def note(fut, c):
        if fut.exception() is None and fut.result()[0] and (prop, c) not in kf:
            hurry[0] = hurry[0] or time.time()

    def start_native(f):
        exe = nats[f].result()
        for c in where:
            if where[c] == f:
                # a second round around the constants that the reference tree does not have
                for d, fs, args in ((None, futs, (seed, nsamp, 120 if tier == 'quick' else 600)), (dic, futd, (seed + 77, 2 * nsamp, 60 if tier == 'quick' else 600, dic))):
                    if d is None and fs is futd:
                        continue
                    fs[c] = ex2.submit(sample, exe, wd, c, *args)
                    fs[c].add_done_callback(lambda x, c=c: note(x, c))
        return exe
    starts = {f: cf.ThreadPoolExecutor(1).submit(start_native, f) for f in files if f in where.values()}
    # proofs
    res = prove_all(jobs, budget, workers, t0 + (420 if tier == 'quick' else 7200), hurry)
    for f in files:
        try:
            exes[f] = starts[f].result() if f in starts else nats[f].result()
        except build.BuildError as e:
            builderr.append((f, str(e)))
    if builderr:
        # the public interface the contracts are written against no longer accepts them
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        rp = f'{VERIF}/evidence/replay_{prop}_build.json'
        json.dump({'property': prop, 'failed_obligation': 'the contracts compile against the public headers', 'verifier_output': [[f, e[:6000]] for f, e in builderr]}, open(rp, 'w'), indent=1)
        for f, e in builderr:
            log('ERROR: contract file does not build against /repo:', f)
            log('\n'.join(x for x in e.split('\n') if 'error:' in x)[:1500])
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {'obligations': 0, 'discharged': 0, 'checker_cmd': f'python3-vt /verif/engine/check.py {prop}', 'trusted_base': TRUSTED, 'build_errors': len(builderr)},
                   'wall_s': round(time.time() - t0, 2), 'violations': 1}, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        return 1
    nat = {c: futs[c].result() for c in futs}
    if futd:
        for c in futd:
            f2, d2 = futd[c].result()
            nat[c][0].extend(f2)
            for k, d in d2.items():
                for x in d:
                    nat[c][1].setdefault(k, {'ran': 0, 'skipped': 0, 'checks': 0})[x] += d[x]
    violations, findings, undecided = [], [], []
    tot = ok = btot = bok = 0
    backends = {}
    assumed = set()
    fns = set()
    bounded = []
    summary = []
    solver = 0.0
    samples_run = checks_run = 0
    for r in sorted(res, key=lambda r: r['contract']):
        c = r['contract']
        exe = exes[where[c]]
        fails, done = nat[c]
        iskf = (prop, c) in kf
        for d in done.values():
            samples_run += d['ran']
            checks_run += d['checks']
        assumed.update(r['assumed'])
        fns.update(reach.get(c, ()))
        solver += r['solver_s']
        n = sum(o['n'] for o in r['oblig'].values())
        k = sum(o['ok'] for o in r['oblig'].values())
        part = bool(r['bounded'] or r['error'])      # explored only up to a bound: reported, never counted as proved
        if not iskf and not part:
            tot += n
            ok += k
        if part:
            btot += n
            bok += k
        for o in r['oblig'].values():
            for b, x in o['backends'].items():
                backends[b] = backends.get(b, 0) + x
        conf = list(fails)
        refuted = []
        for name, o in r['oblig'].items():
            for fl in o['fail']:
                hit = None
                tx = tape_text(fl['tape'])
                if tx is not None:
                    hit = replay(exe, wd, c, tx)
                    if hit:
                        hit['source'] = 'verifier counterexample'
                        conf.append(hit)
                if not hit:
                    refuted.append((name, fl))
            for u in o['unk']:
                tx = tape_text(u['tape']) if 'tape' in u else None
                if tx is not None and not conf:
                    hit = replay(exe, wd, c, tx)
                    if hit:
                        hit['source'] = 'verifier counterexample'
                        conf.append(hit)
                undecided.append((c, name, u['info']))
        if r['error']:
            undecided.append((c, '(exploration incomplete)', r['error']))
        if r['bounded']:
            bounded.append({'contract': c, 'bound': r['bounded']})
        if not r['error'] and (n == 0 or r['returns'] == 0):
            undecided.append((c, '(vacuous)', 'no obligation or no path reaches the end'))
        if (refuted or r['error'] or k < n) and not conf and not hurry[0] and time.time() - t0 < 720:
            # search harder for a failing input
            f2, d2 = sample(exe, wd, c, seed + 1000, nsamp * (20 if refuted else 5), 120)
            conf += f2
            for d in d2.values():
                samples_run += d['ran']
                checks_run += d['checks']
        status = 'proved' if (n and k == n and not r['error'] and not r['bounded'] and r['returns']) else 'bounded' if (n and k == n and not r['error']) else 'refuted' if (conf or refuted) else 'undecided'
        if conf and status == 'proved':
            status = 'proved over the reals, failing natively'
        summary.append({'contract': c, 'status': status, 'obligations': n, 'discharged': k, 'paths': r['paths'], 'loop_inductions': r['summaries'], 'seconds': r['wall'], 'solver_s': r['solver_s'],
                        'named': {a: [o['n'], o['ok']] for a, o in r['oblig'].items()}, 'native_samples': done.get(c, {}).get('ran', 0)})
        if r['error']:
            summary[-1]['error'] = r['error']
        log('%-40s %-10s %d/%d obligations, %d paths, %d inductions, %.1fs, native %s%s' % (c, status, k, n, r['paths'], r['summaries'], r['wall'], done.get(c, {}).get('ran', '-'), ('  [' + r['error'][:500] + ']') if r['error'] else ''))
        lost = []
        if status in ('undecided', 'bounded') and c in expected and not conf and not refuted and 'time limit' not in (r['error'] or ''):
            # this contract is proved on the reference tree; the obligation that can no longer be discharged is the violation
            lost = [name for name, o in r['oblig'].items() if o['ok'] < o['n']] or ['(the contract is no longer within the verifier\'s reach) ' + str(r['error'] or r['bounded'] or 'no path reaches its end')[:200]]
        if not conf and not refuted and not lost:
            for name, o in r['oblig'].items():
                if o['unk']:
                    log('    undecided: %s (%d of %d) %s' % (name, o['n'] - o['ok'], o['n'], str(o['unk'][0]['info'])[:200]))
            continue
        rp = f'{VERIF}/evidence/replay_{prop}_{c}.json'
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        exedesc = f'VP_REPO=/repo python3-vt {VERIF}/engine/check.py {prop} --only={c}$'
        if iskf:
            findings.append(kf[(prop, c)])
            continue
        if conf:
            h = conf[0]
            json.dump({'property': prop, 'contract': c, 'failed_obligations': h['obligations'], 'input_tape': h['tape'], 'found_by': h.get('source', 'native run of the contract'),
                       'verifier_refuted': [a for a, _ in refuted] + [x for x in r['oblig'] if r['oblig'][x]['fail']], 'rerun': exedesc, 'contract_file': where[c]}, open(rp, 'w'), indent=1)
            violations.append((prop, rp, '', c, '; '.join(h['obligations'])[:300]))
        elif lost:
            json.dump({'property': prop, 'contract': c, 'failed_obligation': lost[0], 'verifier_output': {'not_discharged': lost, 'why': [str(u['info'])[:500] for o in r['oblig'].values() for u in o['unk']][:10], 'error': r['error']}, 'rerun': exedesc, 'contract_file': where[c]}, open(rp, 'w'), indent=1, default=str)
            violations.append((prop, rp, ' no-failing-input-found', c, 'not discharged: ' + '; '.join(lost)[:300]))
        else:
            json.dump({'property': prop, 'contract': c, 'failed_obligation': refuted[0][0], 'verifier_output': {'solver_answer': 'sat (negated obligation satisfiable)', 'model': refuted[0][1]['tape'], 'info': str(refuted[0][1].get('info'))}, 'rerun': exedesc, 'contract_file': where[c]}, open(rp, 'w'), indent=1, default=str)
            violations.append((prop, rp, ' no-failing-input-found', c, refuted[0][0]))
    for k in findings:
        log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    level = next((c['level'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks'] if c['property'] == prop), 'other')
    explanation = ('contract-based deductive verification: every path of each contract is executed symbolically over the LLVM IR of the real headers and every obligation is discharged for all inputs; '
                   '%d contracts proved (%d obligations), %d contracts decided only within a stated bound (%d obligations, not counted as proved), %d undecided; the same contracts are also run natively on %d generated inputs (bounded)'
                   % (sum(x['status'] == 'proved' for x in summary), ok, len(bounded), btot, sum(x['status'] == 'undecided' for x in summary), samples_run))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'explanation': explanation, 'obligations': tot, 'discharged': ok, 'checker_cmd': f'python3-vt /verif/engine/check.py {prop}',
                       'trusted_base': TRUSTED + ['assumed library contract: ' + a for a in sorted(assumed)],
                       'contracts': summary, 'functions_under_contract': sorted(fns), 'discharged_by_back_end': backends, 'solver_seconds': round(solver, 2),
                       'undecided': [{'contract': a, 'obligation': b, 'why': str(w)[:300]} for a, b, w in undecided], 'bounded_not_proved': bounded,
                       'bounded_obligations': btot, 'bounded_obligations_discharged_within_the_bound': bok,
                       'native_conformance_samples_bounded': samples_run, 'native_obligation_evaluations_bounded': checks_run},
          'assumptions': json.load(open(VERIF + '/contracts/assumptions.json')).get('all', []) + json.load(open(VERIF + '/contracts/assumptions.json')).get(prop, []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    if only is None:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1, default=str)
    log('%s: %d/%d obligations proved, %d/%d within a bound, in %d contracts (%s), %d undecided, %d bounded, %.1fs' % (prop, ok, tot, bok, btot, len(summary), ', '.join('%s %d' % x for x in sorted(backends.items())), len(undecided), len(bounded), time.time() - t0))
    if '--bless' in sys.argv:
        ef = VERIF + '/contracts/expected.json'
        d = json.load(open(ef))
        d[prop] = sorted(x['contract'] for x in summary if x['status'] == 'proved' and x['seconds'] < 80 and not x['loop_inductions'])
        json.dump(d, open(ef, 'w'), indent=0, sort_keys=True)
        cf_ = VERIF + '/contracts/constants.json'
        d = json.load(open(cf_))
        d[prop] = sorted(consts)
        json.dump(d, open(cf_, 'w'), separators=(',', ':'), sort_keys=True)
    if violations:
        for p, rp, sfx, c, what in violations:
            log('failed: %s: %s' % (c, what))
        # a confirmed violation is reported first
        if any(not v[2] for v in violations):
            violations = [v for v in violations if not v[2]]
        for p, rp, sfx, c, what in violations:
            log('VIOLATION property=%s replay=%s%s' % (p, rp, sfx))
        return 1
    if tot + btot == 0:
        log('ERROR: no obligation was generated')
        return 2
    return 0


if __name__ == '__main__':
    main()
