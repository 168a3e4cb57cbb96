"""Development tool: run the registered check of each seeded bug's property on a scratch copy with the bug applied.  runseeds.py [ID...]"""
import sys, os, json, subprocess, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(p[:-1]) for p in glob.glob(V+'/seeded/*/'))
W = '/tmp/w/runseed'; 
for i in ids:
    subprocess.run('rm -rf %s; mkdir -p %s; rsync -a --exclude target --exclude .git /repo/ %s/ && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff' % (W, W, W, W, V, i), shell=True, check=True)
    p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    t = time.time()
    r = subprocess.run(['python3-vt', V+'/vc/check.py', p, 'quick'], env=dict(os.environ, VC_REPO=W), capture_output=True, text=True, cwd=V)
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print('%-36s %s rc=%d %4.0fs %s' % (i, p, r.returncode, time.time()-t, v[0].split('replay-')[-1] if v else 'MISSED'), flush=True)
    for l in r.stdout.splitlines():
        if 'not discharged' in l or 'undecided (' in l: print('      '+l.strip()[:210], flush=True); 
