"""python3 tools/regress.py [COMMIT ...]: reverts each fix: commit in a scratch clone and confirms that its check reports it again."""
import json,re,subprocess,os,shutil,sys
W="/tmp/rg"; shutil.rmtree(W,ignore_errors=True); os.makedirs(W+"/verif")
subprocess.run(["cp","-a","/verif/pbt","/verif/golden","/verif/known_findings.json",W+"/verif/"],check=True)
subprocess.run(["git","clone","-q","/repo",W+"/repo"],check=True)
env=dict(os.environ,PYTHONPATH=W+"/repo",PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0",OPENBLAS_NUM_THREADS="1",OMP_NUM_THREADS="1",VERIF_SEED="1",VERIF_TIER="quick",VERIF_SHRINK="0")
only=sys.argv[1:]
for e in json.load(open('/verif/known_findings.json'))['fixed']:
    m=re.match(r"fixed: property=(C\d\d) (\w+) (.*)",e); c,h,what=m.groups()
    if only and h not in only: continue
    subprocess.run("git reset -q --hard HEAD; git clean -qfd",shell=True,cwd=W+"/repo")
    r=subprocess.run(f"git revert -n --no-edit {h} || git revert -n --no-edit -X theirs {h}",shell=True,cwd=W+"/repo",capture_output=True,text=True)
    u=subprocess.run("git diff --name-only --diff-filter=U",shell=True,cwd=W+"/repo",capture_output=True,text=True).stdout.split()
    if u:
        subprocess.run("git revert --abort; git reset -q --hard HEAD",shell=True,cwd=W+"/repo",capture_output=True)
        print(h,c,"CONFLICT",what,flush=True); continue
    r=subprocess.run(["/opt/venv/bin/python","-B","-m","pbt.main",c],cwd=W+"/verif",env=env,capture_output=True,text=True)
    o=(r.stdout+r.stderr).splitlines()
    d=[x for x in o if x.startswith("suite") or "HARNESS" in x][:1]
    print(h,c,"caught" if r.returncode==1 else f"MISSED rc={r.returncode}",what[:70],"|",(d or [""])[0][:90],flush=True)
    subprocess.run("git revert --abort; git reset -q --hard HEAD",shell=True,cwd=W+"/repo",capture_output=True)
shutil.rmtree(W)
