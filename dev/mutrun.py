"verify all contracts matching a pattern in both profiles; print a JSON verdict as the last line"
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vc'))
import contracts, allspecs, run
from mir import Mir
pat = sys.argv[1]; failed = []; undec = []; unknown = []; props = set()
for prof, f in zip(('debug', 'release'), sys.argv[2:]):
    mir = Mir(f)
    have = {r['path'] for r in mir.roots}
    for p, (fn, kw) in contracts.SPECS.items():
        if pat in p and p not in have and not kw.get('optional'): undec.append('missing '+p)
    for r in mir.roots:
        if r['path'] not in contracts.SPECS or pat not in r['path']: continue
        R = None
        for m in run.modes_of(r['path']):
            Q = run.run_root(mir, r, m, 200); R = run.better(R, Q)
            if run.final(R, Q): break
        if R['err']: undec.append('%s %s: %s' % (prof, r['path'], R['err']))
        for o in R['obls']:
            if o.status == 'failed': failed.append('%s %s %s | %s' % (prof, r['path'], o.kind, o.msg)); props.add(o.kind)
            elif o.status != 'proved': unknown.append('%s %s | %s' % (r['path'], o.kind, o.msg))
    if failed: break
print(json.dumps(dict(v='failed' if failed else 'unknown' if unknown else 'undecided' if undec else 'clean', failed=failed[:6], nfailed=len(failed), undec=[u[:250] for u in undec[:4]], unknown=unknown[:3], kinds=sorted(props))))
