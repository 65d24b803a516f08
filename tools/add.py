"""add.py Cxx technique note: register a check"""
import json, os, sys, subprocess
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, 'checks.json')
d = json.load(open(p))
d[sys.argv[1]] = {'technique': sys.argv[2], 'note': sys.argv[3]}
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
subprocess.check_call([sys.executable, os.path.join(here, 'props.py')])
subprocess.check_call([sys.executable, os.path.join(here, 'manifest.py')])
subprocess.check_call([sys.executable, os.path.join(here, 'design.py')])
