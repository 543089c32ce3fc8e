#!/usr/bin/env python3
"""Runs the simulations, scaled down, on every mutant that builds and passes the tests.
usage: run.py OUT.jsonl [scale] [file,file...]"""
import json,subprocess,os,sys,shutil,tempfile,re
from concurrent.futures import ThreadPoolExecutor
out=sys.argv[1]; scale=float(sys.argv[2]) if len(sys.argv)>2 else 0.02; flt=sys.argv[3].split(',') if len(sys.argv)>3 else []
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GOSUMDB="off",GOMAXPROCS="2")
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.abspath(here+"/../..")
subprocess.run(["go","build","-o","/tmp/mutate.bin","."],cwd=here,env=env,check=True)
subprocess.run(["go","build","-o","/tmp/instr.bin","."],cwd=root+"/instr",env=env,check=True)
muts=[json.loads(l) for l in subprocess.run(["/tmp/mutate.bin","/repo"],capture_output=True,text=True).stdout.splitlines()]
muts=[m for m in muts if not flt or m['file'] in flt]
muts=[m for m in muts if not (m['old'].startswith(('e.log.','d.log.','log.')) or 'sb.' in m['old'])] # wording of logs and strings
quick={m.group(1):int(m.group(2)) for m in re.finditer(r'ID: "(C\d+)".*?Quick: (\d+)',open(root+"/sim/props/table.go").read())}
done=set()
if os.path.exists(out):
    for l in open(out):
        r=json.loads(l); done.add((r['file'],r['off'],r['new'],r['kind']))
def one(m):
    k=(m['file'],m['off'],m['new'],m['kind'])
    if k in done: return None
    d=tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree("/repo",d+"/r",ignore=shutil.ignore_patterns(".git"))
        p=d+"/r/"+m['file']; s=open(p,'rb').read()
        open(p,'wb').write(s[:m['off']]+m['new'].encode()+s[m['end']:])
        b=subprocess.run(["go","build","./..."],cwd=d+"/r",env=env,capture_output=True,text=True)
        if b.returncode: return dict(m,res="nobuild")
        try:
            t=subprocess.run(["go","test","-vet=off","./agentx/...","./oid/...","./hex/..."],cwd=d+"/r",env=env,capture_output=True,text=True,timeout=60)
        except subprocess.TimeoutExpired:
            return dict(m,res="test timeout")
        if t.returncode!=0: return dict(m,res="tests")
        os.makedirs(d+"/lib")
        subprocess.run(["/tmp/instr.bin","-src",d+"/r","-dst",d+"/lib","-sites",d+"/sites"],check=True,capture_output=True)
        open(d+"/go.mod","w").write(open(root+"/sim/go.mod").read().replace("=> /repo","=> "+d+"/lib"))
        b=subprocess.run(["go","build","-modfile="+d+"/go.mod","-o",d+"/vsim","./cmd/vsim"],cwd=root+"/sim",env=env,capture_output=True,text=True)
        if b.returncode: return dict(m,res="simbuild",msg=b.stderr[-500:])
        caught={};odd=[]
        for c in quick:
            if m['file'].startswith("oid/") and m['file'] not in ("oid/oid.go",) and c<"C10": continue
            if m['file'].startswith("agentx/") and "C10"<=c<"C15": continue
            try:
                r=subprocess.run([d+"/vsim","worker","-prop",c,"-seed","77","-first","0","-step","1","-last",str(int(quick[c]*scale)),"-tier","quick","-limit","100","-hashes",d+"/h"],env=dict(env,GOMAXPROCS="1"),capture_output=True,text=True,timeout=200)
                if r.returncode: odd.append((c,r.returncode,r.stderr[-300:])); continue
                o=json.loads(r.stdout)
                f=o.get("Fail") or o.get("fail"); h=o.get("Harness") or o.get("harness")
                if h: odd.append((c,"harness",h))
                if f: caught[c]=(f.get("Index",f.get("index")),(f.get("Class") or f.get("class") or "")[:60])
            except subprocess.TimeoutExpired: odd.append((c,"timeout",""))
        return dict(m,res="caught" if caught else "survived",caught=caught,odd=odd)
    finally: shutil.rmtree(d,ignore_errors=True)
with ThreadPoolExecutor(8) as ex, open(out,'a') as f:
    for r in ex.map(one,muts):
        if r: f.write(json.dumps(r)+'\n'); f.flush()
