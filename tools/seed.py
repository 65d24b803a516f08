#!/usr/bin/env python3
"""seed.py ID...   confirm planted bugs: applies, builds, passes the stable tests, demo passes without and fails with the patch,
and say which checks report it. Works on a private copy of /repo that is mounted over /repo in a mount namespace of its own."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


RES = {}


def ns(copy, cmd, **kw):
    return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)],
                          capture_output=True, text=True, errors='replace', **kw)


def one(sid):
    sd = os.path.join(V, 'seeded', sid)
    w = tempfile.mkdtemp(prefix='sd.', dir='/tmp')
    out = []
    try:
        cp = w + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', cp])
        shutil.copytree(sd, w + '/demo', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        demo = 'timeout 300 bash %s/demo/demo.sh' % w
        r = ns(cp, demo)
        out.append('demo clean: %d' % r.returncode)
        if r.returncode:
            return sid, out + [r.stdout[-800:] + r.stderr[-1500:]]
        r = ns(cp, 'git apply %s/patch.diff' % sd)
        if r.returncode:
            return sid, out + ['patch does not apply ' + r.stderr]
        r = ns(cp, 'bash /opt/vp/test.sh %s/out.json' % w)
        if not os.path.exists(w + '/out.json'):
            return sid, out + ['tests did not run ' + r.stdout[-500:] + r.stderr[-500:]]
        o = set(json.load(open(w + '/out.json'))['passed'])
        miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in o]
        out.append('tests missing: %d %s' % (len(miss), miss[:3] or r.stderr[-300:] if miss else ''))
        r = ns(cp, demo)
        out.append('demo patched: %d %s' % (r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]))
        prop = json.load(open(sd + '/meta.json'))['property']
        r = subprocess.run([sys.executable, V + '/analysis/check.py', prop], env=dict(os.environ, PV_REPO=cp), capture_output=True, text=True)
        RES[sid] = '%s' % prop if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED (exit %d)' % r.returncode
        out.append('check %s: %d %s' % (prop, r.returncode, '\n   '.join(x[:220] for x in r.stdout.strip().splitlines()[-4:-2])))
        return sid, out
    finally:
        shutil.rmtree(w)


ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(3) as ex:
    for sid, out in ex.map(one, ids):
        print(sid, '|', '\n   '.join(out), flush=True)
p = V + '/tools/seed_results.json'
d = json.load(open(p)) if os.path.exists(p) else {}
d.update(RES)
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
subprocess.call([sys.executable, V + '/tools/design.py'])
