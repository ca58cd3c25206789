#!/usr/bin/env python3
"""mut.py ID[,ID] file 'old' 'new' : run checks on a mutated copy of src"""
import sys,os,subprocess,shutil,tempfile
ids,f,old,new=sys.argv[1:5]
d=tempfile.mkdtemp(prefix='mut.')
shutil.copytree('/repo/src',d+'/src',ignore=shutil.ignore_patterns('*.o','*.d'))
p=d+'/src/'+f; s=open(p).read()
if s.count(old)<1: print('NO MATCH'); sys.exit(9)
if s.count(old)>1: print('warn: %d matches, first used'%s.count(old))
open(p,'w').write(s.replace(old,new,1))
for i in ids.split(','):
    r=subprocess.run(['python3','/verif/run.py',i],env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
    print(i,'rc',r.returncode,'|',' || '.join(l[:200] for l in (r.stdout+r.stderr[-400:]).strip().split('\n')[:3]))
shutil.rmtree(d)
