#!/usr/bin/env python3
"""Record what the sources of /repo mention now: the generators give what is new more attention."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
import gens
with open(os.path.join(HERE, 'harness', 'literals.json'), 'w') as fp:
    json.dump(gens.mentions(gens.REPO), fp, indent=0, sort_keys=True)
    fp.write('\n')
