"""mkbug.py <id> <property> : reads /tmp/bugs/<id>.py (edits list, needs, breaks, demo) and verifies in a scratch copy"""
import sys, os, subprocess, json, shutil, importlib.util
ID=sys.argv[1]
spec=importlib.util.spec_from_file_location("b","/tmp/bugs/%s.py"%ID); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
W="/tmp/w/repo"
subprocess.run("rsync -a --delete /repo/ %s/ 2>/dev/null || (rm -rf /tmp/w/repo && cp -a /repo /tmp/w/repo)"%W,shell=True)
subprocess.run(["git","-C",W,"checkout","-q","--","."],check=True)
for f,old,new in b.edits:
    p=os.path.join(W,f); s=open(p).read()
    assert s.count(old)>=1,("not found",f,old)
    assert s.count(old)==1 or getattr(b,"first",False),("ambiguous",f,s.count(old),old)
    open(p,"w").write(s.replace(old,new,1))
d="/verif/seeded/%s"%ID
os.makedirs(d,exist_ok=True)
diff=subprocess.check_output(["git","-C",W,"diff"],text=True)
open(d+"/patch.diff","w").write(diff)
open(d+"/demo.rs","w").write(b.demo)
here=os.path.dirname(os.path.abspath(__file__))
if hasattr(b,"bad"): open(d+"/bad.rs","w").write(b.bad)
open(d+"/demo.sh","w").write(open(here+("/demo_bad.sh" if hasattr(b,"bad") else "/demo.sh")).read())
os.chmod(d+"/demo.sh",0o755)
json.dump({"property":b.prop,"needs":b.needs,"what_it_breaks":b.breaks},open(d+"/meta.json","w"),indent=1)
env=dict(os.environ,RUSTUP_TOOLCHAIN="nightly",CARGO_NET_OFFLINE="true",CARGO_PROFILE_DEV_DEBUG="line-tables-only")
t=subprocess.run("cargo test --workspace --offline --no-fail-fast -- --test-threads 8",shell=True,cwd=W,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
bad=[l for l in t.stdout.splitlines() if ("FAILED" in l or "mismatch" in l or l.startswith("error")) ]
print("tests rc",t.returncode,bad[:6])
r=subprocess.run(["bash",d+"/demo.sh"],cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
print("demo with patch rc",r.returncode,"|",r.stdout.strip()[-400:])
r0=subprocess.run(["bash",d+"/demo.sh"],cwd="/repo",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
print("demo unchanged rc",r0.returncode,"|",r0.stdout.strip()[-800:] if r0.returncode else "")
