#!/usr/bin/env python3
"""mkbug.py SPEC...   each SPEC is a Python file of bug(id, prop, file, [(old,new)...], needs, breaks, demo) calls;
writes seeded/<id>/. Edits /repo only for the moment of the diff."""
import sys,os,subprocess,json
def bug(id,prop,file,edits,needs,breaks,demo,extra={}):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    files=file if isinstance(file,list) else [file]
    orig={f:open('/repo/'+f,encoding='utf-8',errors='surrogateescape').read() for f in files}
    txt=dict(orig)
    for e in edits:
        f=files[0] if len(e)==2 else e[2]
        assert txt[f].count(e[0])==1,(id,f,txt[f].count(e[0]),e[0])
        txt[f]=txt[f].replace(e[0],e[1])
    try:
        for f in files: open('/repo/'+f,'w',encoding='utf-8',errors='surrogateescape').write(txt[f])
        p=subprocess.run(['git','-C','/repo','diff'],capture_output=True).stdout
    finally:
        for f in files: open('/repo/'+f,'w',encoding='utf-8',errors='surrogateescape').write(orig[f])
    open(d+'/patch.diff','wb').write(p)
    if demo.lstrip().startswith('#py'):
        open(d+'/demo.py','w').write(demo.lstrip())
        demo='#!/bin/bash\nPYTHONPATH=/repo/python python3 "$(dirname "$0")/demo.py"\n'
    else: demo='#!/bin/bash\n'+demo.lstrip()
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    for k,v in extra.items(): open(d+'/'+k,'w').write(v)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    print('wrote',id,len(p))
for s in sys.argv[1:]: exec(open(s).read())
