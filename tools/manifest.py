"""writes ../MANIFEST.json from props.py, RULES below and analysis/rules"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
import props
NA = {
 'C43': 'value-level equality after a round trip through two programs quantifies over all run-time values; the layout half is decided by C03-C05',
 'C44': 'the result of machine arithmetic for every value is not a structural fact; the status-checking half is decided by C29/C30',
 'C45': 'quantifies over wall-clock times; queue membership and locking are decided by C23-C25',
 'C46': 'an arithmetic identity over all words; canonical form and memory safety are decided by C21/C22',
 'C47': 'value-level equality through an external JSON library; containment of errors is decided by C31/C32',
 'C48': 'liveness under arbitrary user callbacks and scheduling; the lock rules it rests on are decided by C23/C24',
}
checks = {}
try:
    checks = json.load(open(os.path.join(here, 'tools', 'checks.json')))
except FileNotFoundError:
    pass
m = {'version': 1, 'setup_cmd': 'python3 analysis/setup.py', 'checks': [], 'not_applicable': []}
for p in props.P:
    i = p['id']
    if i in checks:
        c = checks[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 analysis/check.py %s' % i,
                            'thorough_cmd': 'python3 analysis/check.py %s --tier thorough' % i,
                            'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not decided yet: the rule for it is not built')})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
