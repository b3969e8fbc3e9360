"""seed(...) plants a bug in a scratch copy, confirms and stores it, and says whether the check catches it."""
import json, os, shutil, subprocess, sys, tempfile, re
PY='/opt/venv/bin/python'
BASE=set()
def base():
    b=json.load(open('/opt/vp/BASELINE.json'))
    return b
def run(cmd, cwd, env=None, timeout=900):
    e=dict(os.environ); e.update(env or {}); e['PYTHONDONTWRITEBYTECODE']='1'; e['OPENBLAS_NUM_THREADS']='1'
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, shell=True, timeout=timeout)
def seed(id, prop, edits, demo, needs, breaks, check=True, tests=True, tier='quick'):
    d=tempfile.mkdtemp(prefix='sx_')
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
        run('git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', d)
        sd=f'/verif/seeded/{id}'; os.makedirs(sd, exist_ok=True)
        open(f'{sd}/demo.py','w').write(demo)
        open(f'{sd}/demo.sh','w').write('#!/bin/sh\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(f'{sd}/meta.json','w'), indent=1)
        r=run(f'sh {sd}/demo.sh', d)
        if r.returncode: print(id,'DEMO FAILS CLEAN', r.stdout[-800:], r.stderr[-800:]); return
        for f,o,n in edits:
            p=f'{d}/structuralcodes/{f}'; s=open(p,newline='').read()
            if '\r\n' in s: o,n=o.replace('\n','\r\n'),n.replace('\n','\r\n')
            if s.count(o)!=1: print(id,'EDIT matches',s.count(o),f,o[:60]); return
            open(p,'w',newline='').write(s.replace(o,n))
        diff=subprocess.run('git diff', cwd=d, capture_output=True, shell=True).stdout
        open(f'{sd}/patch.diff','wb').write(diff)
        r=run(f'sh {sd}/demo.sh', d)
        if r.returncode==0: print(id,'DEMO PASSES PATCHED'); return
        msg=(r.stdout+r.stderr).strip().splitlines()[-1:]
        if tests:
            r=run(f'{PY} -m pytest -q -n 8 -p no:cacheprovider --timeout=300 -x --basetemp={d}/.bt -o addopts= tests', d, {'PYTHONPATH':d})
            tail=r.stdout.strip().splitlines()[-1:]
            ok=r.returncode==0
            if not ok: print(id,'TESTS FAIL',[x for x in r.stdout.splitlines() if x.startswith('FAILED')][:5],tail); shutil.rmtree(sd); return
        else: tail=[]
        res='?'
        if check:
            r=run(f'sh /verif/check.sh {prop} {tier}', '/verif', {'VERIF_REPO':d,'VERIF_SEED':'1'})
            v=f'VIOLATION property={prop}' in r.stdout
            res=('CAUGHT' if r.returncode==1 and v else f'MISSED rc={r.returncode}')+' '+' '.join(re.findall(r'(\d+ of the obs)',r.stdout))
            if r.returncode not in (0,1): res+=(r.stdout+r.stderr)[-600:]
        print(id, prop, 'ok', msg, tail, res, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
def recheck(ids=None, tier='quick'):
    from concurrent.futures import ThreadPoolExecutor
    ids=ids or sorted(os.listdir('/verif/seeded'))
    def one(id):
        d=tempfile.mkdtemp(prefix='sx_')
        try:
            sd=f'/verif/seeded/{id}'; prop=json.load(open(f'{sd}/meta.json'))['property']
            subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
            run('git init -q .',d)
            r=run(f'git apply {sd}/patch.diff', d)
            if r.returncode: return f'{id} PATCH DOES NOT APPLY {r.stderr}'
            dm=run(f'sh {sd}/demo.sh', d).returncode
            r=run(f'sh /verif/check.sh {prop} {tier}', '/verif', {'VERIF_REPO':d,'VERIF_SEED':'1'})
            v=f'VIOLATION property={prop}' in r.stdout
            return f"{id} {prop} demo={dm} "+('CAUGHT' if r.returncode==1 and v else f'MISSED rc={r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}')
        finally: shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(2) as ex:
        for x in ex.map(one, ids): print(x, flush=True)
if __name__=='__main__': recheck(sys.argv[1:])
