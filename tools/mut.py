#!/usr/bin/env python3
"""mut.py Cxx[,Cyy] file old new [nth]   (scratch copy of the sources)"""
import sys, shutil, subprocess, os
ids, f, old, new = sys.argv[1:5]
d='/tmp/mt.%d'%os.getpid()
os.makedirs(d)
try:
    shutil.copytree('/repo/src', d+'/src', ignore=shutil.ignore_patterns('O.*'))
    shutil.copytree('/repo/configure', d+'/configure', ignore=shutil.ignore_patterns('O.*'))
    p=d+'/src/'+f
    s=open(p).read()
    if old not in s: print('NO MATCH'); sys.exit(9)
    n=int(sys.argv[5]) if len(sys.argv)>5 else 0
    parts=s.split(old)
    s=old.join(parts[:n+1])+new+old.join(parts[n+1:])
    open(p,'w').write(s)
    for i in ids.split(','):
        r=subprocess.run(['python3','/verif/analysis/check.py',i],env=dict(os.environ,PV_REPO=d),capture_output=True,text=True)
        print(i,'->',r.returncode); print('\n'.join((r.stdout+r.stderr[-500:]).strip().split('\n')[-4:])[:900])
finally:
    shutil.rmtree(d)
