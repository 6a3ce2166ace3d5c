#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
NA = {
 'C21': 'Conversions of enumerations are pure functions over a finite domain: no concurrency, time, I/O, randomness, peer or fault for a simulator to control. Deciding it would be plain enumeration (another technique). Their effect on the wire is exercised inside the C09-C13 simulations.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    sched = any('sched' in v for v, _ in c['variants'])
    checks.append(dict(property=i, quick_cmd='./vf.py check %s quick' % i, thorough_cmd='./vf.py check %s thorough' % i,
        technique='deterministic simulation with fault injection: ' + ('seeded scheduler of simulated threads at memory-access granularity, race detector, reference model' if sched else 'seeded discrete-event simulation of the real code with injected faults, checked against an independent reference model'),
        level='exploration',
        level_note=c.get('note', 'Seeded search over simulated runs of the real code; every run is judged step by step against a reference model. Not exhaustive: it shows the property on everything explored. Trusts the simulator, the reference model and the compiler; the SSL library runs for real.')))
na = [dict(property=i, reason=NA.get(i, 'Check not built yet.')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='./vf.py setup',
    hooks=dict(guard='none', enable='No hooks were added to /repo: the simulator uses the callbacks the code already has and link-time seams (--wrap) in its own build.', source_commits=[]),
    checks=checks, not_applicable=na,
    notes='Replay a violation with ./vf.py replay FILE. Determinism proof: ./vf.py selftest N.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
