"""Writes MANIFEST.json from the list of claimed properties (python3 vc/gen_manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(V+'/vc/claimed.txt').read().split()
props = [json.loads(l) for l in open(V+'/properties.jsonl')]
NOTE = ('Every public function the property depends on is verified against its contract on the MIR that rustc builds from /repo on this run, in a debug and a release profile, for all capacities, '
        'layouts, arguments and loop iterations. Trusted: rustc front end, the VC generator in vc/, z3, and the contracts assumed on core/std and dependencies listed in the evidence. '
        'Functions the verifier cannot reach are listed as undecided and covered by a bounded native search (labelled bounded, never counted as proved).')
checks = [dict(property=p['id'], quick_cmd='python3-vt vc/check.py %s quick' % p['id'], thorough_cmd='python3-vt vc/check.py %s thorough' % p['id'],
               technique='contract-based deductive verification of rustc MIR (symbolic VC generation with inferred and proved loop invariants, z3)', level='proof', level_note=NOTE)
          for p in props if p['id'] in CLAIMED]
na = [dict(property=p['id'], reason='contracts for the functions this property depends on are not written yet') for p in props if p['id'] not in CLAIMED]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(V+'/MANIFEST.json', 'w'), indent=1)
