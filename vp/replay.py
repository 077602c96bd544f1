"""Re-run a saved counterexample natively against /repo's current sources."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
import props


def main():
    d = json.load(open(sys.argv[1]))
    spec = props.PROPS[d['property']]
    for tier in ('quick', 'thorough'):
        for c in spec['cases'](tier):
            if c.name == d['case']:
                r = driver.Runner(d['property'] + '-replay', [], tier)
                rc, log = r.native(c, d['values'], 'replay')
                print(log)
                print('exit', rc, '(0: property held on this input; anything else: it did not)')
                return 0 if rc == 0 else 1
    print('case not found')
    return 2


sys.exit(main())
