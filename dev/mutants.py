"""Development tool (no check reads it): mutate /repo's source one token at a time, run the verifier and the native harness on
every mutant, and list those on which the two disagree.   mutants.py OUT.jsonl WORKERS [FILE-SUBSTRING] [STEP OFFSET]"""
import sys, os, re, json, subprocess, shutil, hashlib
import multiprocessing as mp
W = os.environ.get('MUT_WORK', '/tmp/w/mc'); VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['src/sized_chunk/mod.rs', 'src/sized_chunk/iter.rs', 'src/sized_chunk/refpool.rs', 'src/ring_buffer/mod.rs', 'src/ring_buffer/index.rs', 'src/ring_buffer/iter.rs',
         'src/ring_buffer/slice.rs', 'src/ring_buffer/refpool.rs', 'src/sparse_chunk/mod.rs', 'src/sparse_chunk/iter.rs', 'src/sparse_chunk/refpool.rs', 'src/inline_array/mod.rs', 'src/inline_array/iter.rs', 'src/arbitrary.rs']
PAT = {'sized_chunk': 'sized_chunk', 'ring_buffer': 'ring_buffer', 'sparse_chunk': 'sparse_chunk', 'inline_array': 'inline_array', 'arbitrary': "Arbitrary<'a>"}
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.left\b', '.right'), (r'\.right\b', '.left'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
       (r'\bif !', 'if '), (r'\bif (?!let|!|\()', 'if !'), (r'_front\b', '_back'), (r'_back\b', '_front'), (r'\bmin\b', 'max'), (r'\bindex\b', '(index+1)'), (r'self\.left\(\)', 'self.right()'), (r'\blen\b(?!\()', '(len-1)'),
       (r'\.\.self\.(\w+)', r'..self.\1 - 1'), (r'\bfrom\b(?!\()', 'to'), (r'\bto\b(?!\()', 'from'), (r'\bcount\b', '(count-1)'), (r'\bSome\(([^()]*)\) =>', r'Some(\1) if false =>'), (r'\bother\b', 'self'), (r'\bself\b(?=\.)', 'other'), ('STMT', '')]
def sites():
    out = []
    for f in FILES:
        src = open('/repo/'+f).read().split('#[cfg(test)]\n')[0].split('\n')
        insig = False
        for n, l in enumerate(src):
            s = l.strip()
            if not s or s.startswith(('//', '#[', 'use ', 'impl', 'where', 'pub struct', 'pub mod', 'mod ', 'type ', '///', 'pub use')): continue
            if re.match(r'(pub(\(crate\))? )?(unsafe )?(const )?fn ', s): continue
            if re.match(r'\w+: [A-Z&]\w*', s) and s.endswith((',', '{')): continue
            for a, b in OPS:
                if a == 'STMT':
                    if s.endswith(';') and not s.startswith(('let ', 'return', 'const ', 'pub const', '}', '.', ')')) and '(' in s or re.match(r'[\w.]+ [-+]?= .*;$', s): out.append((f, n, l, re.match(r'\s*', l).group()+';'))
                    continue
                code = l.split('//')[0]
                for m in re.finditer(a, code):
                    if code[:m.start()].count('"') % 2: continue
                    new = l[:m.start()]+m.expand(b)+l[m.end():]
                    if new != l: out.append((f, n, l, new))
    return out
def work(a):
    i, (f, n, old, new) = a
    wid = mp.current_process()._identity[0]
    d = '%s/%d' % (W, wid); repo = d+'/repo'
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', '/repo/', repo+'/'], check=True)
    L = open(repo+'/'+f).read().split('\n'); assert L[n] == old; L[n] = new
    open(repo+'/'+f, 'w').write('\n'.join(L))
    R = dict(id=i, file=f, line=n+1, old=old.strip(), new=new.strip())
    lib = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()+'/lib'
    dumps = {}
    for p, c in (('debug', '-C overflow-checks=on -C debug-assertions=on'), ('release', '-C overflow-checks=off -C debug-assertions=off')):
        out = '%s/mir-%s.json' % (d, p)
        if os.path.exists(out): os.remove(out)
        subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--all-features'], cwd=repo, capture_output=True,
                       env=dict(os.environ, LD_LIBRARY_PATH=lib, MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER='/tmp/w/md/release/mirdump', CARGO_TARGET_DIR='%s/mt-%s' % (d, p),
                                RUSTFLAGS='--cap-lints allow -Zmir-opt-level=0 -Zalways-encode-mir -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums '+c))
        if not os.path.exists(out): R['v'] = 'nocompile'; return R
        dumps[p] = out
    pat = [v for k, v in PAT.items() if k in f][0]
    try: r = subprocess.run(['python3-vt', VERIF+'/dev/mutrun.py', pat, dumps['debug'], dumps['release']], capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired: R['v'] = 'timeout'; r = None
    if r:
        try: R.update(json.loads(r.stdout.strip().split('\n')[-1]))
        except Exception: R['v'] = 'crash '+r.stderr[-300:]
    if os.environ.get('SKIP_FAILED') and R['v'] == 'failed': return R      # caught: no need for the native harness
    sys.path.insert(0, VERIF+'/vc'); import native
    R['n'] = {}
    with mp.pool.ThreadPool(2) as tp: exes = tp.map(lambda p: native.build(d, repo, p), native.PROFILES)
    for k in range(1, 18):
        P = 'C%02d' % k
        for p, (exe, err) in zip(native.PROFILES, exes):
            if not exe: R['n']['build'] = err[-300:]; continue
            try: q = subprocess.run([exe, P, '1'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=40)
            except subprocess.TimeoutExpired: R['n'][P] = 'timeout'; continue
            if 'CASES' not in q.stdout: R['n'][P] = 'crash'
            fl = [l for l in q.stdout.splitlines() if l.startswith('FAIL ')]
            if fl: R['n'][P] = fl[0][:150]
    return R
if __name__ == '__main__':
    import multiprocessing.pool
    out = sys.argv[1]; nw = int(sys.argv[2]); sub = sys.argv[3] if len(sys.argv) > 3 else ''
    step, off = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (1, 0)
    S = list(enumerate(sites()))
    print(len(S), 'sites')
    done = set()
    if os.path.exists(out): done = {(r['file'], r['line'], r['new']) for r in map(json.loads, open(out))}
    # stable pseudo-random order, so that any prefix is a sample
    S = [x for x in S if sub in x[1][0]]
    S.sort(key=lambda x: hashlib.md5(repr(x[1]).encode()).hexdigest())
    S = [x for x in S[off::step] if (x[1][0], x[1][1]+1, x[1][3].strip()) not in done]
    with mp.Pool(nw) as pool, open(out, 'a') as h:
        for r in pool.imap_unordered(work, S):
            h.write(json.dumps(r)+'\n'); h.flush()
