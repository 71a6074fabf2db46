import os, subprocess, shutil, json, sys
SEED="/verif/seeded"
REPO=os.environ.get("PLANT_REPO","/repo")
def plant(id, prop, edits, demo, needs, breaks, common=True):
    d=f"{SEED}/{id}"
    w=f"/tmp/w/{id}"
    subprocess.run(["rm","-rf",w]); os.makedirs(w)
    subprocess.run(f"git -C {REPO} archive HEAD | tar x -C {w}",shell=True,check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm x",shell=True,cwd=w,check=True)
    for f,old,new in edits:
        p=f"{w}/{f}"; s=open(p).read()
        if s.count(old)!=1: print(id,"BAD EDIT",f,s.count(old),repr(old[:60])); return False
        open(p,"w").write(s.replace(old,new))
    os.makedirs(d,exist_ok=True)
    diff=subprocess.run(["git","diff"],cwd=w,capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo.py","w").write(demo.lstrip("\n"))
    if common: shutil.copy("/verif/tools/planting/common.py",d+"/common.py")
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    ok=subprocess.run(["bash",d+"/demo.sh"],cwd=REPO,capture_output=True,text=True)
    bad=subprocess.run(["bash",d+"/demo.sh"],cwd=w,capture_output=True,text=True)
    good = ok.returncode==0 and bad.returncode!=0
    print(id, "OK" if good else "DEMO-WRONG", ok.returncode,bad.returncode, bad.stdout.strip()[-150:] if good else "", flush=True)
    if not good: print(ok.stdout[-500:],ok.stderr[-1500:],"--",bad.stdout[-500:],bad.stderr[-1500:])
    elif "FAIL" not in bad.stdout: print("   (no FAIL line)",bad.stderr[-400:])
    return good
