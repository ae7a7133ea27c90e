#!/usr/bin/env python3
"""mkseed.py ID PROP file <<< spec : spec is python: OLD/NEW/DEMO/NEEDS/BREAKS"""
import sys,subprocess,os,json
def seed(id,prop,edits,demo,needs,breaks):
    R='/tmp/s/repo'
    subprocess.run(['git','checkout','-q','--','.'],cwd=R,check=True)
    subprocess.run(['git','fetch','-q','/repo'],cwd=R); subprocess.run(['git','reset','-q','--hard','FETCH_HEAD'],cwd=R,check=True)
    for f,old,new in edits:
        p=os.path.join(R,f); s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    d=os.environ.get('SEEDED','/verif/seeded')+f'/{id}'; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.run(['git','diff'],cwd=R,capture_output=True,text=True).stdout)
    subprocess.run(['git','checkout','-q','--','.'],cwd=R)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d+'/demo.py','w').write(demo.lstrip('\n'))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
