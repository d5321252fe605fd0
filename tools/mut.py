#!/usr/bin/env python3
# mut.py CHECK[,CHECK] file 'old' 'new'  : run checks against a mutated copy
import sys,subprocess,shutil,os,tempfile
checks,f,a,b=sys.argv[1:5]
d=tempfile.mkdtemp(dir='/tmp/mut')
shutil.copytree('/repo/include',d+'/include'); shutil.copytree('/repo/src',d+'/src')
p=d+'/include/crab/'+f; s=open(p).read()
n=s.count(a)
assert n>=1,('not found',a)
s=s.replace(a,b,1) if len(sys.argv)<6 else s.replace(a,b)
open(p,'w').write(s)
for c in checks.split(','):
    r=subprocess.run(['python3','/verif/check.py',c],env=dict(os.environ,CRAB_REPO=d),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    l=r.stdout.strip().splitlines()
    print(c,'rc',r.returncode, '|'.join(x[:160] for x in l if 'VIOL' not in x)[:300])
shutil.rmtree(d)
