#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines `seeds = {id: (property, needs, breaks, [(file, old, new)], demo_rs)}`; writes /verif/seeded/<id>/."""
import subprocess,sys,os,json,shutil
ns={}; exec(open(sys.argv[1]).read(),ns)
R='/tmp/sd/repo'
for id,(prop,needs,breaks,edits,demo) in ns['seeds'].items():
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    for f,old,new in edits:
        p=f'{R}/{f}'; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old)); open(p,'w').write(s.replace(old,new))
    open(d+'/patch.diff','wb').write(subprocess.check_output(['git','-C',R,'diff']))
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    shutil.copy('/verif/tools/demo_template.sh',d+'/demo.sh')
    open(d+'/demo.rs','w').write(demo.lstrip('\n'))
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
