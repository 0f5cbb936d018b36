"""reseed.py [ids...] [--notests] [--workers N]: run every stored planted bug against its property's check."""
import sys, os, json, subprocess, shutil, concurrent.futures as cf
from plant import sh, ENV, PY, own_lines
def do(id, tests):
    s=f'/verif/seeded/{id}'; d=f'/tmp/pl/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/pl',exist_ok=True)
    subprocess.run(['git','clone','-q','/repo',d],check=True)
    r=[]
    a=sh(['git','apply',f'{s}/patch.diff'],d)
    if a.returncode: shutil.rmtree(d); return id,'APPLY FAIL '+a.stderr
    if own_lines(d): r.append('OWN LINES')
    c=sh(['bash',s+'/demo.sh'],'/repo',timeout=300); p=sh(['bash',s+'/demo.sh'],d,timeout=300)
    r.append(f'demo {c.returncode}/{p.returncode}'+(' BAD' if c.returncode or not p.returncode else ''))
    if tests:
        t=sh(f'{PY} -m pytest -q -x -p no:cacheprovider --randomly-seed=0 --randomly-dont-reorganize --timeout=300 tests --deselect tests/feature/test_price_sequences.py::test_edge 2>&1 | tail -5',d)
        r.append('tests '+('ok' if ' failed' not in t.stdout and ' passed' in t.stdout else 'FAIL'))
    prop=json.load(open(s+'/meta.json'))['property']
    k=sh([PY,'/verif/run.py',prop,'--tier','quick','--workers','2'],'/verif',env=dict(ENV,QFL_REPO=d,VERIF_SEED='1'))
    v=[l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
    r.append(f'{prop} '+('CAUGHT' if k.returncode==1 and v else f'MISSED rc={k.returncode} '+(k.stdout+k.stderr)[-200:]))
    shutil.rmtree(d, ignore_errors=True)
    return id,' '.join(r)
if __name__=='__main__':
    ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
    with cf.ThreadPoolExecutor(4) as ex:
        for f in cf.as_completed([ex.submit(do,i,'--notests' not in sys.argv) for i in ids]): print(*f.result(),flush=True)
