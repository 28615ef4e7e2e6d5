#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import jobs as J
NA = J.NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i in NA: continue
    if i not in J.JOBS: sys.stderr.write('no check for %s\n' % i); NA = dict(NA, **{i: 'no check built yet'}); continue
    S = J.JOBS[i]; b = S['bounds']; b = b if isinstance(b, str) else '; '.join('%s: %s' % x for x in b.items())
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique=('symbolic execution of the LLVM bitcode of the real code with Z3 deciding every branch and assertion' + (', over symbolic thread schedules, spurious wake-ups and expiry times with a happens-before race check' if S.get('threads') else '') + '; counterexamples replayed natively'),
        level='model_checking', level_note='Decided for every value and path within the bounds: ' + b + '. Nothing is claimed beyond them. Trusted: the executor (sampled paths and every counterexample are replayed in the natively compiled code) and the models of iostream, threads and libc in models/.'))
m = dict(version=1, setup_cmd='python3 check.py SETUP', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
