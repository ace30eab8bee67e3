#!/usr/bin/env python3
"""mut.py PROP[,PROP] file 's-old' 's-new' [--only h]: apply replacement in copy, run check"""
import sys,subprocess,shutil,os,tempfile
props,f,old,new=sys.argv[1:5]
extra=sys.argv[5:]
d=tempfile.mkdtemp(prefix='mut_',dir='/tmp/w')
shutil.copytree(os.environ.get('MBASE','/repo')+'/planner',d+'/planner')
p=d+'/planner/src/'+f
s=open(p).read()
old=old.encode().decode('unicode_escape'); new=new.encode().decode('unicode_escape')
n=s.count(old)
if n<1: print('PATTERN NOT FOUND'); shutil.rmtree(d); sys.exit(3)
open(p,'w').write(s.replace(old,new,1))
for pr in props.split(','):
    r=subprocess.run(['python3','/verif/check.py',pr]+extra,env=dict(os.environ,VP_REPO=d),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%s %s: %r -> %r : %s'%(pr,f,old[:60],new[:60],'CAUGHT '+', '.join(os.path.basename(x.split('replay=')[1]) for x in v) if v else 'MISSED rc=%d'%r.returncode))
    if not v: print(r.stdout[-1500:])
shutil.rmtree(d)
