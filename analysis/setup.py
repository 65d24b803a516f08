"""build the extractor and verify it can parse /repo"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pv import facts
facts.build_tool()
p = facts.load()
print('pvfacts: %d units, %d functions, %d records' % (len(p.units), len(p.fns), len(p.recs)))
