#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os
R = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
NA = {}
TODO = 'the check for this property is not finished'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/props/%s.py' % (R, i.lower())):
        checks.append(dict(property=i, quick_cmd='python3-vt -m sf.check %s quick' % i, thorough_cmd='python3-vt -m sf.check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the LLVM IR of the real binary, obligations decided by z3 (QF_BV / QF_LIA), counterexamples replayed on the binary',
                           level='model_checking',
                           level_note='Every value of the symbolic inputs within the bounds stated in the evidence file is covered on every explored path; scenarios (journal shapes) are fixed by the check. Trusted: rustc/LLVM 18 front half up to the emitted IR, the engine\'s IR semantics and its model of the operating system (cross-checked by replaying paths on the real binary), z3. Paths whose outcome hinges on the last bit of a floating-point operation (ties) are excluded and counted.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, TODO)))
m = dict(version=1, setup_cmd='python3 sf/build.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Fixes of genuine defects are listed in known-findings.json.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
