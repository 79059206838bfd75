import subprocess
def sh(c): 
    r=subprocess.run(c,shell=True,capture_output=True,text=True); print((r.stdout+r.stderr).strip()[-400:]); return r.returncode
def edit(p,reps):
    s=open(p).read()
    for a,b in reps:
        assert s.count(a)==1,(p,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def commit(prop,msg):
    assert sh("cd /repo && bash /verif/lib/repotest.sh | tail -1")==0
    sh(f"cd /repo && git commit -qam 'fix: {msg}' && python3 /verif/lib/fixed.py {prop} '{msg}'")
