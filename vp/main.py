import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
import props

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('-v', action='store_true')
ap.add_argument('--only')
ap.add_argument('--list', action='store_true')
ap.add_argument('--keep', action='store_true')
a = ap.parse_args()
spec = props.PROPS[a.prop]
if a.list:
    for c in spec['cases'](a.tier):
        print(c.name, c.defs)
    sys.exit(0)
sys.exit(driver.check(a.prop, spec, a.tier, verbose=a.v, only=a.only, keep=a.keep))
