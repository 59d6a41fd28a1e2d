#!/usr/bin/env python3
# usage: mk.py FILE.py   (FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, kind='page'|'sh')])
import sys, os, subprocess, json, shutil, runpy
WT='/tmp/seedwt'
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
if os.path.isdir(WT): sh('git','-C','/repo','worktree','remove','--force',WT)
r=sh('git','-C','/repo','worktree','add','--detach',WT,'HEAD'); assert r.returncode==0, r.stderr
try:
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        for f,o,n in b['edits']:
            p=os.path.join(WT,f); s=open(p).read()
            assert s.count(o)==1,(b['id'],f,o,s.count(o))
            open(p,'w').write(s.replace(o,n))
        d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(sh('git','-C',WT,'diff').stdout)
        sh('git','-C',WT,'checkout','--','.')
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        if b.get('kind','page')=='page':
            shutil.copy('/tmp/seed/page.mjs',d+'/page.mjs')
            open(d+'/demo.mjs','w').write(b['demo'].lstrip())
            open(d+'/demo.sh','w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec timeout 120 node --experimental-import-meta-resolve --no-warnings "$here/demo.mjs"\n')
        else:
            for name,text in b['demo'].items(): open(d+'/'+name,'w').write(text.lstrip())
        os.chmod(d+'/demo.sh',0o755)
        print('made',b['id'])
finally:
    sh('git','-C','/repo','worktree','remove','--force',WT)
