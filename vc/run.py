import sys, time, json, traceback
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from mir import Mir
import engine, contracts
from values import *
import allspecs
def run_root(mir, root, mode='conc', budget=200, verbose=False, debug=False):
    key = root['key']
    body = mir.body(root, key)
    eng = engine.Engine(mir, root, budget)
    eng.lib = mode != 'conc'        # see models.EXTRA
    res_mode = mode; mode = 'conc' if mode == 'lib' else mode
    t = time.time()
    res = {'path': root['path'], 'mode': res_mode, 'err': None}
    try:
      n = {}
      for case in contracts.cases(root):
        st, x = contracts.setup(eng, root, body, mode, case)
        f, kw = contracts.SPECS[root['path']]
        S = f(x)
        eng.sorted = S.get('sorted')
        if 'requires' in S: st.add(S['requires'])
        outs = eng.run_body(st, body, x.args, key)
        ck = contracts.Check(eng, x, S, kw)
        for s, kind, v in outs:
            if not eng.sat(s): continue
            n[kind] = n.get(kind, 0)+1
            for s2, _ in [(s, 0)]:
                work = [s]
                while work:
                    q = work.pop(); nob = len(eng.obls)
                    try: ck.outcome(q.copy(), kind, v)
                    except Split as e:
                        del eng.obls[nob:]
                        a = q.copy(); a.add(e.cond); b = q.copy(); b.add(contracts.neg(e.cond)); work += [a, b]
      res['outs'] = n
      if not n.get('ret') and not S.get('never_returns'): res['err'] = 'vacuous: no returning path'
    except (Undecided, Split) as e:
        res['err'] = '%s: %s' % (type(e).__name__, e)
        if debug: print([x for x in getattr(e,'spans',[])])
    except Violated as e: res['err'] = 'Violated %s' % e
    except Exception as e:
        res['err'] = 'internal %s: %s' % (type(e).__name__, e)
        if debug: traceback.print_exc()
    res['secs'] = time.time()-t; res['solver'] = eng.tsolve; res['queries'] = eng.nqueries
    res['obls'] = eng.obls; res['functions'] = eng.functions; res['loops'] = eng.nloops
    res['used'] = eng.contracts_used; res['assumed'] = eng.assumed
    return res
def modes_of(path): return contracts.SPECS[path][1].get('modes', ('conc', 'lib', 'abs'))
def better(best, R):
    """of the results of two attempts, the one to report.  conc: std bodies executed, container methods executed; lib: as conc, with
    summaries for the std functions of models.EXTRA; abs: callee contracts.  'lib' replaces 'conc' only when it proves everything, when
    'conc' could not be run to the end, or to tell a violation from an invariant that was too weak."""
    if best is None: return R
    if not best['err']:
        if R['mode'] != 'lib' or R['err']: return best
        if all(o.status == 'proved' for o in R['obls']): return R
        return best if any(o.status == 'failed' for o in best['obls']) or all(o.status != 'failed' for o in R['obls']) else R
    return R if not R['err'] else best
def final(best, R):
    "no need for another attempt"
    return R['mode'] != 'conc' and not best['err'] or not R['err'] and all(o.status == 'proved' for o in R['obls'])
if __name__ == '__main__':
    prof, pat = sys.argv[1], sys.argv[2]
    mode = sys.argv[3] if len(sys.argv) > 3 else 'conc'
    mir = Mir(os.environ.get('VC_MIR', '/tmp/w/mir-%s.json') % prof)
    for r in mir.roots:
        if r['path'] in contracts.SPECS and pat in r['path']:
            R = run_root(mir, r, mode, debug='-v' in sys.argv)
            bad = [o for o in R['obls'] if o.status != 'proved']
            print('%-70s %5.1fs q=%d obls=%d loops=%d %s %s' % (r['path'][-70:], R['secs'], R['queries'], len(R['obls']), R['loops'], R.get('outs'), R['err'] or ''))
            for o in bad[:6]: print('      ', o.status, o.kind, '|', o.msg, '|', o.where, '|', o.model)
