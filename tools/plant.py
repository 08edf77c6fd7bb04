"""plant.py FILE: bugs -> /verif/seeded; verifies in copies. FILE defines BUGS list of dicts."""
import sys, os, subprocess, json, shutil, textwrap
sys.path.insert(0,'/tmp/w/bugs')
mod=__import__(sys.argv[1]); only=sys.argv[2:]
S='/tmp/w/seedcopy'
PRE='''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import tempfile
import numpy as np
from wulfric import Atom
import magnopy
from magnopy import *
scratch = tempfile.TemporaryDirectory()
TMP = scratch.name
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.exists(S): sh(f'cp -a /repo {S}')
sh(f'git -C {S} checkout -q -- . && git -C {S} fetch -q /repo && git -C {S} reset -q --hard FETCH_HEAD')
for b in mod.BUGS:
    if only and b['id'] not in only: continue
    sh(f'git -C {S} checkout -q -- .')
    d=f"/verif/seeded/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    blame_bad=[]
    for f,old,new in b['edits']:
        p=f'{S}/src/magnopy/{f}'; s=open(p).read()
        assert s.count(old)==1,(b['id'],f,old,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=sh(f'git -C {S} diff').stdout
    open(d+'/patch.diff','w').write(diff)
    # removed lines must be original
    f=None; orig=0; mine=0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]; bl={x.split(')',1)[1][1:]:(x[0]=='^' or x.startswith('b28981c')) for x in sh(f'git -C {S} blame -s HEAD -- {f}').stdout.splitlines()}
        elif l.startswith('-') and not l.startswith('---'):
            if bl.get(l[1:]): orig+=1
            elif l[1:].strip(): mine+=1
    open(d+'/demo.py','w').write(PRE+textwrap.dedent(b['demo']))
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":b['property'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
    bad=sh(f'bash {d}/demo.sh',cwd=S,timeout=280)
    tests=sh('PYTHONPATH=src /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors --doctest-modules --ignore=utests/test_io/test_hdf5_internal.py --ignore=utests/test_io/test_txt_internal.py --ignore=utests/test_io/test_txt_verify.py utests src 2>&1 | tail -3',cwd=S)
    sh(f'git -C {S} checkout -q -- .')
    good=sh(f'bash {d}/demo.sh',cwd=S,timeout=280)
    print(b['id'],b['property'],'good',good.returncode,'bad',bad.returncode,'orig',orig,'mine',mine,tests.stdout.strip().splitlines()[-1][:100])
    if good.returncode or not bad.returncode: print(good.stdout[-800:],good.stderr[-1500:],'BAD:',bad.stdout[-500:],bad.stderr[-500:])
    else: print('    ',(bad.stderr.strip().splitlines() or ['?'])[-1][:150])
