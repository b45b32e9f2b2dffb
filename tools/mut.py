import sys,subprocess,shutil,tempfile,os,concurrent.futures as cf
E="competition_engine.go"; I="competition_engine_internal.go"; R="regulator.go"; G="competition.go"; K="rank.go"; B="blind/blind.go"; BS="blind/state.go"; M="manager.go"; N="native_table_manager_backend.go"
spec={}
exec(open(sys.argv[1]).read(),globals())
sel=sys.argv[2:] 
def one(m):
    name,props,exp,edits=m
    w=tempfile.mkdtemp(prefix="mut-"); r=w+"/repo"
    try:
        subprocess.run(["cp","-a","/repo",r])
        for f,o,n in edits:
            t=open(f"{r}/{f}").read()
            if t.count(o)!=1: return f"{name}: EDIT MISMATCH {f} {t.count(o)}: {o[:60]!r}"
            open(f"{r}/{f}","w").write(t.replace(o,n))
        b=subprocess.run(". /opt/vp/env.sh; go build ./...",shell=True,cwd=r,capture_output=True,text=True)
        if b.returncode: return f"{name}: NO BUILD {b.stderr[:400]}"
        c=subprocess.run(f". /opt/vp/env.sh; timeout 900 /tmp/vp -repo {r} -prop {props}",shell=True,capture_output=True,text=True)
        out=c.stdout.strip().splitlines()
        got="V" if c.returncode==1 else "ok" if c.returncode==0 else "ERR"
        flag="" if (got=="V")==(exp=="V") and got!="ERR" else "   <<<<<<<<<<"
        first=[l for l in out if not l.startswith("OK") and not l.startswith("VIOLATION")][:2]
        return f"{name} {props}: {got} (want {exp}){flag}\n     "+"\n     ".join(x[:230] for x in first)+(c.stderr[-500:] if got=="ERR" else "")
    finally: shutil.rmtree(w)
with cf.ThreadPoolExecutor(4) as ex:
    for s in ex.map(one,[m for m in MUTS if not sel or m[0] in sel]): print(s,flush=True)
