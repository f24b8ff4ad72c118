#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness directives."""
import json, glob, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
have = {}
sched = set()
for f in glob.glob(here + '/harness/*/*.go'):
    for l in open(f):
        m = re.match(r'//sv:harness (.*)', l)
        if m:
            p = re.search(r'prop=(\S+)', m.group(1)).group(1)
            have[p] = have.get(p, 0) + 1
            if 'sched=1' in m.group(1):
                sched.add(p)
na = {}
p = here + '/tools/not_applicable.json'
if os.path.exists(p):
    na = json.load(open(p))
checks, nap = [], []
for d in props:
    i = d['id']
    if i in na or i not in have:
        nap.append({'property': i, 'reason': na.get(i, 'no check built yet')})
        continue
    t = 'symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3)'
    if i in sched:
        t += ', with schedules up to a preemption bound as symbolic choices'
    checks.append({
        'property': i,
        'quick_cmd': './run.sh check %s -tier quick' % i,
        'thorough_cmd': './run.sh check %s -tier thorough' % i,
        'technique': t,
        'level': 'model_checking',
        'level_note': 'Bounded: holds for every input (and schedule) within the bounds listed per harness in the evidence file; '
                      'trusts the SSA interpreter (validated by replaying sampled paths natively), its models of runtime primitives and z3. '
                      'Only natively reproduced counterexamples are reported.',
    })
m = {
    'version': 1,
    'setup_cmd': './run.sh setup',
    'checks': checks,
    'not_applicable': nap,
    'notes': 'One engine (engine/) and harnesses (harness/); see DESIGN.md. known_findings.txt lists recorded defects and repairs.',
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(nap), 'not applicable')
