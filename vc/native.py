"""Bounded stand-in and counterexample search: builds the replay harness against the source tree and runs every case of a
property in a debug and a release build."""
import os, subprocess, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
WORK = None
PROFILES = ('debug', 'release')

def prepare(work, repo):
    d = work+'/replay-src'
    os.makedirs(d, exist_ok=True)
    shutil.copytree(VERIF+'/replay/src', d+'/src', dirs_exist_ok=True)
    for f in ('Cargo.lock',):
        if os.path.exists(VERIF+'/replay/'+f): shutil.copy(VERIF+'/replay/'+f, d)
    t = open(VERIF+'/replay/Cargo.toml').read().replace('path = "/repo"', 'path = "%s"' % repo)
    open(d+'/Cargo.toml', 'w').write(t)
    return d

def build(work, repo, prof):
    d = prepare(work, repo)
    cmd = ['cargo', 'build', '--offline']+(['--release'] if prof == 'release' else [])
    r = subprocess.run(cmd, cwd=d, env=dict(os.environ, CARGO_TARGET_DIR='%s/rt' % work, RUSTFLAGS='--cap-lints allow'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    exe = '%s/rt/%s/replay' % (work, prof)
    return (exe, None) if r.returncode == 0 and os.path.exists(exe) else (None, r.stdout[-2000:])

def run(prop, tier, seed, work, repo):
    import multiprocessing.pool
    prepare(work, repo)
    with multiprocessing.pool.ThreadPool(2) as tp: exes = tp.map(lambda p: build(work, repo, p), PROFILES)
    fails = []; cov = []
    seeds = [seed] if tier == 'quick' else [seed+i for i in range(40)]
    for p, (exe, err) in zip(PROFILES, exes):
        if not exe:
            cov.append('%s: harness does not build' % p); print('replay harness does not build (%s): %s' % (p, err)); continue
        cases = 0
        for s in seeds:
            try:
                r = subprocess.run([exe, prop, str(s)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=200)
            except subprocess.TimeoutExpired as e:
                fails.append(dict(case='%s seed %d' % (p, s), msg='the run does not finish: an operation does not terminate', profile=p, seed=s, hard=True)); break
            m = re.search(r'^CASES (\d+)', r.stdout, re.M)
            if m: cases += int(m.group(1))
            for l in r.stdout.splitlines():
                if l.startswith('FAIL '):
                    c, _, msg = l[5:].partition(' | ')
                    fails.append(dict(case=c, msg=msg, profile=p, seed=s))
            if not m:     # crashed: find the case
                r2 = subprocess.run([exe, prop, str(s), '--trace'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
                last = [l for l in r2.stdout.splitlines() if l.startswith('RUN ')]
                if prop in ('C05', 'C06', 'C07') or not fails:
                    fails.append(dict(case=last[-1][4:] if last else '?', msg='the process is killed or aborts (exit %d)' % r.returncode, profile=p, seed=s, hard=True))
            if fails: break
        cov.append('%s build: %d cases' % (p, cases))
        if fails: break
    bound = 'exhaustive layouts and subsets for capacities up to 5 (ring slices up to 4), sampled for 8..64; every operation, extreme arguments, injected panics'
    return dict(failures=fails, coverage='; '.join(cov)+' ('+bound+')')

def rerun(prop, f):
    return "cd %s/replay && CARGO_TARGET_DIR=/tmp/replay-target cargo run --offline %s-- %s %d --only '%s'   (%s build)" % (VERIF, '--release ' if f['profile'] == 'release' else '', prop, f['seed'], f['case'], f['profile'])
