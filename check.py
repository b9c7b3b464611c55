#!/usr/bin/env python3
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bitflow import driver
a = argparse.ArgumentParser()
a.add_argument('property', nargs='?')
a.add_argument('--setup', action='store_true')
a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a.add_argument('--only')
a.add_argument('--limit', type=int)
a.add_argument('-v', action='store_true')
a.add_argument('-j', type=int, default=8)
n = a.parse_args()
if n.setup:
    from bitflow import build
    print(build.lib())
    sys.exit(0)
sys.exit(driver.main(n.property, n.tier, int(os.environ.get('VERIF_SEED', '1')), n.only, n.v, n.limit, n.j))
