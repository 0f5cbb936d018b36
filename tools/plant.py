"""plant.py spec.py [ids...] [--notests] [--nocheck]: build, verify and store planted bugs (spec: BUGS=[dict(id,prop,edits,needs,breaks,demo,also)])."""
import sys, os, subprocess, shutil, json, importlib.util, concurrent.futures as cf
PY='/opt/venv/bin/python'
ENV=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
from blame import own_lines
def sh(cmd, cwd, env=None, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, shell=isinstance(cmd,str), capture_output=True, text=True, timeout=timeout)
def do(b, tests=True, check=True):
    id=b['id']; d=f'/tmp/pl/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/pl',exist_ok=True)
    subprocess.run(['git','clone','-q','/repo',d],check=True)
    for f,old,new in b['edits']:
        p=f'{d}/quantfinlib/{f}'; s=open(p,newline='').read()
        crlf='\r\n' in s
        if crlf: old,new=old.replace('\n','\r\n'),new.replace('\n','\r\n')
        if s.count(old)!=1: shutil.rmtree(d); return id,f'edit matches {s.count(old)} times: {old[:60]!r}'
        open(p,'w',newline='').write(s.replace(old,new))
    diff=subprocess.run(['git','diff','--no-color'],cwd=d,capture_output=True).stdout
    out=f'/verif/seeded/{id}'; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','wb').write(diff)
    open(out+'/demo.py','w').write(b['demo'].strip()+'\n')
    open(out+'/demo.sh','w').write('#!/bin/bash\n# exit 0: behaves as it should; nonzero: the planted change is visible\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(out+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(out+'/meta.json','w'),indent=1); open(out+'/meta.json','a').write('\n')
    r=[]
    ol=own_lines(d)
    if ol: r.append('OWN LINES: '+' ## '.join(ol))
    a=sh(f'git -C /repo apply --check {out}/patch.diff','/repo'); r.append('apply:'+('ok' if a.returncode==0 else 'FAIL '+a.stderr))
    c=sh(['bash',out+'/demo.sh'],'/repo',timeout=300); p=sh(['bash',out+'/demo.sh'],d,timeout=300)
    r.append(f'demo clean={c.returncode} patched={p.returncode}')
    if c.returncode: r.append(c.stderr[-800:])
    if not p.returncode: r.append('DEMO DOES NOT SEE IT')
    elif 'Error' in p.stderr and 'AssertionError' not in p.stderr: r.append('patched stderr: '+p.stderr[-300:])
    if tests:
        t=sh(f'{PY} -m pytest -q -x -p no:cacheprovider --randomly-seed=0 --randomly-dont-reorganize --timeout=300 tests --deselect tests/feature/test_price_sequences.py::test_edge 2>&1 | tail -5',d)
        r.append('tests: '+('ok' if ' failed' not in t.stdout and ' passed' in t.stdout and 'error' not in t.stdout.lower().split('warnings summary')[0] else 'FAIL'+t.stdout[-400:]))
    if check:
        for prop in b['prop'].split()+b.get('also',[]):
            k=sh([PY,'/verif/run.py',prop,'--tier','quick','--workers','2'],'/verif',env=dict(ENV,QFL_REPO=d,VERIF_SEED='1'))
            v=[l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
            r.append(f'{prop}: rc={k.returncode} {"CAUGHT" if k.returncode==1 and v else "MISSED"} '+(k.stdout+k.stderr).strip()[-220:].replace('\n',' | '))
    shutil.rmtree(d, ignore_errors=True)
    return id,'\n    '.join(r)
if __name__=='__main__':
    sp=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    ids=[a for a in sys.argv[2:] if not a.startswith('-')]
    bugs=[b for b in m.BUGS if not ids or b['id'] in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        for f in cf.as_completed([ex.submit(do,b,'--notests' not in sys.argv,'--nocheck' not in sys.argv) for b in bugs]):
            id,t=f.result(); print(id,'\n   ',t,flush=True)
