"""Writes harness/base_literals.json: the string and number literals of the tree the stand-ins were tuned on
(literals that are new in a later tree are then tried as names and sizes)."""
import os, sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import lib
s, n = lib.literals()
json.dump({'strs': sorted(s), 'nums': sorted(n)}, open(os.path.join(lib.HERE, 'base_literals.json'), 'w'), indent=0)
