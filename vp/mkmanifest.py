"""Regenerate MANIFEST.json from the registered properties."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
import props

NOT_APPLICABLE = []
na = os.path.join(driver.VERIF, 'not_applicable.json')
if os.path.exists(na):
    NOT_APPLICABLE = json.load(open(na))

ids = [json.loads(l)['id'] for l in open(os.path.join(driver.VERIF, 'properties.jsonl'))]
skip = {x['property'] for x in NOT_APPLICABLE}
checks = []
for i in ids:
    if i in skip:
        continue
    s = props.PROPS[i]
    eng = {c.engine for c in s['cases']('quick')}
    tech = ' + '.join(([] if 'sx' not in eng else ['symbolic execution of the LLVM bitcode of the real code, Z3 decides every branch, assertion and memory access']) +
                      ([] if 'cbmc' not in eng else ['bounded model checking of the real C code (CBMC, SAT)']))
    checks.append({
        'property': i,
        'quick_cmd': './check %s --tier quick' % i,
        'thorough_cmd': './check %s --tier thorough' % i,
        'technique': 'solver-based: ' + tech + '; counterexamples replayed natively under ASan/UBSan',
        'level': 'other',
        'level_note': 'Bounded, exhaustive within the bounds: ' + s['explanation'] + ' Outside: ' + '; '.join(s['outside']) +
                      '. Assumes: ' + '; '.join(s['assumptions']) + '.',
    })
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
     'notes': 'See DESIGN.md. No hooks in /repo; the "fix:" commits there repair defects the checks found (known_findings.txt).'}
json.dump(m, open(os.path.join(driver.VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
