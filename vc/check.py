"""Entry point of every registered check:  check.py PROPERTY [quick|thorough]

1. dump the MIR of /repo's current source in two build profiles (overflow/debug checks on and off),
2. verify every function of the property against its contract (one process per function and profile),
3. when an obligation is not discharged, search a failing input on the real code (native harness) and report,
4. write evidence/<property>.json."""
import sys, os, json, time, subprocess, shutil, signal
import multiprocessing as mp, multiprocessing.pool
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
T0 = time.time()
DEADLINE = 480      # seconds for the verification jobs; the rest of the 900 s is for the front end and the native stand-in
PROFILES = ('debug', 'release')
FLAGS = {'debug': '-C overflow-checks=on -C debug-assertions=on', 'release': '-C overflow-checks=off -C debug-assertions=off'}
GENERIC = ('C05', 'C06', 'C07', 'C08')

def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()

# ------------------------------------------------------------------ front end
def build_driver(work):
    r = sh(['cargo', '+nightly', 'build', '--release', '--offline'], {'CARGO_TARGET_DIR': work+'/driver'}, VERIF+'/mirdump')
    d = work+'/driver/release/mirdump'
    if not os.path.exists(d): raise SystemExit('check error: cannot build the MIR front end\n'+r.stdout[-3000:])
    return d
def dump(work, driver, prof):
    out = '%s/mir-%s.json' % (work, prof)
    r = sh(['cargo', '+nightly', 'check', '--lib', '--offline', '--all-features'],
           {'LD_LIBRARY_PATH': sysroot()+'/lib', 'MIRDUMP_OUT': out, 'RUSTC_WORKSPACE_WRAPPER': driver, 'CARGO_TARGET_DIR': '%s/mt-%s' % (work, prof),
            'RUSTFLAGS': '--cap-lints allow -Zmir-opt-level=0 -Zalways-encode-mir -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums '+FLAGS[prof]}, REPO)
    shutil.rmtree('%s/mt-%s' % (work, prof), ignore_errors=True)
    if not os.path.exists(out): return None, r.stdout[-3000:]
    return out, None

# ------------------------------------------------------------------ verification jobs
MIRS = {}
def job(a):
    prof, key, budget = a
    import run
    mir = MIRS[prof]
    root = [r for r in mir.roots if r['key'] == key][0]
    best = None
    for m in run.modes_of(root['path']):
        left = DEADLINE-(time.time()-T0)      # a changed function may be far slower than today's: report it undecided in time
        if left < 5: break
        def late(*_): raise run.Undecided('time budget')
        signal.signal(signal.SIGALRM, late); signal.alarm(int(min(budget, left))+30)
        try: R = run.run_root(mir, root, m, min(budget, left))
        finally: signal.alarm(0)
        best = run.better(best, R)
        if run.final(best, R): break
    if best is None: return dict(prof=prof, path=root['path'], key=key, mode=m, err='no time left for this function', secs=0, solver=0, queries=0, loops=0, outs=None, functions=[], used={}, assumed=[], obls=[])
    R = best
    return dict(prof=prof, path=R['path'], key=key, mode=R['mode'], err=R['err'], secs=R['secs'], solver=R['solver'], queries=R['queries'], loops=R['loops'],
                outs=R.get('outs'), functions=sorted(R['functions']), used=R['used'], assumed=sorted(R.get('assumed', ())),
                obls=[(o.kind, o.msg, o.where, o.status, o.model, round(o.secs, 4)) for o in R['obls']])
def props_of(kind):
    if kind == 'mem': return ('C05',)
    if kind.startswith('mem:'): return tuple(kind[4:].split(','))
    if kind == 'leak': return ('C06',)
    if kind.startswith('post:'): return tuple(kind[5:].split(','))
    return ()

def fprops(path):
    "the functional properties a function's contract belongs to"
    import contracts
    p = contracts.SPECS[path][1].get('prop') or ()
    return (p,) if isinstance(p, str) else tuple(p)

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = '%s/.build/%s-%d' % (VERIF, prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    try: rc = check(prop, tier, seed, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(prop, tier, seed, work):
    import contracts, allspecs, models
    from mir import Mir
    driver = build_driver(work)
    with mp.pool.ThreadPool(2) as tp: dumps = tp.map(lambda p: dump(work, driver, p), PROFILES)
    errs = [e for _, e in dumps if e]
    results = []; missing = []; nospec = []
    if errs: print('the MIR front end could not process the source:\n'+errs[0])
    else:
        for p, (f, _) in zip(PROFILES, dumps): MIRS[p] = Mir(f)
        jobs = []
        for p in PROFILES:
            have = {}
            for r in MIRS[p].roots: have.setdefault(r['path'], []).append(r)
            for path, (f, kw) in contracts.SPECS.items():
                if not relevant(prop, kw): continue
                if path not in have:
                    if not kw.get('optional'): missing.append(path)
                    continue
                for r in have[path]: jobs.append((p, r['key'], 240 if tier == 'quick' else 600))
            if p == 'debug':
                nospec = sorted({r['path'] for r in MIRS[p].roots if r['path'] not in contracts.SPECS and r.get('reachable') and not r.get('is_const')})
        with mp.Pool(8) as pool: results = pool.map(job, jobs, chunksize=1)
    return report(prop, tier, seed, work, results, sorted(set(missing)), nospec, errs)

def relevant(prop, kw):
    p = kw.get('prop') or ()
    p = (p,) if isinstance(p, str) else tuple(p)
    if prop in GENERIC: return True
    return prop in p

def known(prop):
    out = []
    f = VERIF+'/known-findings.txt'
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): out.append(l[len('finding: '):])
    return out

def report(prop, tier, seed, work, results, missing, nospec, errs):
    mine = []; undecided = []; bad = []; other = []
    for d in results:
        if d['err']: undecided.append('%s [%s]: %s' % (d['path'], d['prof'], d['err']))
        for o in d['obls']:
            m = prop in (fprops(d['path']) if o[0] == 'term' else props_of(o[0]))
            if m: mine.append((d, o))
            if o[3] != 'proved': (bad if m else other).append((d, o))
    for p in nospec: undecided.append('%s: a public function without a contract' % p)
    for p in missing: undecided.append('%s: no such function in the source (contract not applied)' % p)
    if errs: undecided.append('the front end failed')
    failed = [(d, o) for d, o in bad if o[3] == 'failed']
    unknown = [(d, o) for d, o in bad if o[3] != 'failed']
    stand = tier == 'thorough'      # bounded cross-check of the verifier's trusted base; never counted as proved
    native = None
    import native as nat
    if bad or undecided or other or stand:
        native = nat.run(prop, tier, seed, work, REPO)
    nviol = 0
    kf = known(prop)
    os.makedirs(VERIF+'/evidence', exist_ok=True)
    lines = []
    if native and native['failures']:
        for f in native['failures'][:1]:
            rp = '%s/evidence/replay-%s.txt' % (VERIF, prop)
            with open(rp, 'w') as h:
                h.write('property %s\nfailing case: %s\nwhat fails: %s\nrerun: %s\n\n' % (prop, f['case'], f['msg'], nat.rerun(prop, f)))
                for g in native['failures'][:50]: h.write('  %s | %s\n' % (g['case'], g['msg']))
                h.write('\nobligations not discharged:\n'); dump_bad(h, bad, other, undecided)
            lines.append('VIOLATION property=%s replay=%s' % (prop, rp)); nviol += 1
    elif failed:
        rp = '%s/evidence/replay-%s.txt' % (VERIF, prop)
        with open(rp, 'w') as h:
            d, o = failed[0]
            h.write('property %s\nfailed obligation: %s (%s, %s profile)\n%s\nverifier counterexample: %s\nno concrete failing input was found on the real code\n\n' % (prop, o[1], d['path'], d['prof'], o[2], o[4]))
            dump_bad(h, bad, other, undecided)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); nviol += 1
    for l in kf: print('KNOWN-FINDING: '+l)
    ndone = sum(1 for _, o in mine if o[3] == 'proved')
    used = {}; fns = set(); loops = 0; assumed = set(); tm = 0; q = 0; kinds = {}
    for d in results:
        fns |= set(d['functions']); loops += d['loops']; tm += d['solver']; q += d['queries']; assumed |= set(d['assumed'])
        for k, n in d['used'].items(): used[k] = used.get(k, 0)+n
    und_paths = sorted({u.split(' [')[0] for u in undecided})
    samples = sorted(mine, key=lambda x: -x[1][5])[:3]
    cov = dict(obligations=len(mine), discharged=ndone,
               checker_cmd='python3-vt vc/check.py %s %s' % (prop, tier),
               trusted_base=['rustc nightly front end and MIR (no MIR optimisation)', 'vc/ (symbolic executor over MIR, loop-invariant prover)', 'z3 (python binding)', 'contracts assumed on core/std/alloc, bitmaps, array-ops, arbitrary (vc/models*.py)'],
               functions_under_contract=len({d['path'] for d in results}), contracts_checked_in_profiles=list(PROFILES), function_profile_runs=len(results),
               bodies_executed=len(fns), loops_with_proved_invariant=loops, solver='z3', solver_queries=q, solver_seconds=round(tm, 1),
               undecided=undecided, undecided_functions=len(und_paths), bounded_stand_in=native and native['coverage'],
               obligations_failed=len(failed), obligations_unknown=len(unknown),
               dependent_obligations_not_discharged=['%s [%s] %s: %s' % (d['path'], d['prof'], o[0], o[1]) for d, o in other][:50],
               contracts_used_modularly=used, functions_without_contract=nospec if prop in GENERIC else len(nospec),
               functions=sorted({d['path'] for d in results}),
               vacuity='every function run must have at least one feasible returning path; runs without one are reported as undecided',
               samples=['%s [%s] %s: %s -> %s in %.3fs' % (d['path'], d['prof'], o[0], o[1], o[3], o[5]) for d, o in samples])
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov,
              assumptions=ASSUME+['external contract: '+a for a in sorted(assumed)], wall_s=round(time.time()-T0, 1), violations=nviol)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    print('%s: %d functions, %d/%d obligations discharged, %d undecided functions, %d loops, solver %.1fs, wall %.1fs' % (
        prop, len({d['path'] for d in results}), ndone, len(mine), len(und_paths), loops, tm, time.time()-T0))
    for u in undecided[:20]: print('  undecided (bounded stand-in applies): '+u[:200])
    for d, o in bad[:10]: print('  not discharged: %s [%s] %s: %s (%s)' % (d['path'], d['prof'], o[0], o[1], o[3]))
    if native: print('  bounded native stand-in: %s' % native['coverage'])
    for l in lines: print(l)
    return 1 if nviol else 0
def dump_bad(h, bad, other, und):
    for d, o in bad+other: h.write('%s [%s]\n   %s | %s | %s | %s\n   counterexample: %s\n' % (d['path'], d['prof'], o[3], o[0], o[1], o[2], o[4]))
    for u in und: h.write('undecided: %s\n' % u)

ASSUME = ['const parameter N <= isize::MAX; ring buffers have N >= 1',
          'slice and iterator lengths fit the address space (<= isize::MAX)',
          'no iterator or input supplied by the user is asked for 2^64 or more items (loops over them end for this reason; every other loop is proved to end)',
          'where the element type decides which implementation of a std trait runs, the specialised ones behave like the general one',
          'references obey Rust aliasing rules (guaranteed by the borrow checker for safe callers)',
          'a panic raised while another panic unwinds aborts the process (Rust semantics)']
if __name__ == '__main__': main()
