#!/usr/bin/env python3
"""Author a planted bug: tools/seed.py SPEC.py
SPEC defines id, prop, needs, breaks, edits=[(file,old,new)...], demo=rust source of fn main (panics on failure).
Confirms it in a scratch copy of /repo (/tmp/vpseed/repo): builds, stable tests pass, demo 0 unpatched / nonzero patched;
writes /verif/seeded/<id>/. Never touches /repo."""
import subprocess,sys,os,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W="/tmp/vpseed/repo"
def sh(c,**k): return subprocess.run(["bash","-c",c],capture_output=True,text=True,**k)
DEMO_SH='''#!/bin/bash
# exit 0: the property held in this scenario; nonzero: it did not. Run in the repository after its build.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cargo build --lib --locked --offline >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log"; exit 3; }
t=$repo/target/debug
rustc --edition 2021 --cap-lints allow "$here/demo.rs" --extern vatsim_parser="$t/libvatsim_parser.rlib" -L dependency="$t/deps" -o "$tmp/demo" || exit 3
mkdir "$tmp/w" && cd "$tmp/w" && REPO="$repo" timeout 120 "$tmp/demo"
'''
def refresh():
    os.makedirs("/tmp/vpseed",exist_ok=True)
    if not os.path.exists(W):
        sh(f"cp -a /repo {W}")
    r=sh(f"cd {W} && git checkout -q -- . && git fetch -q /repo HEAD 2>&1 && git reset -q --hard FETCH_HEAD"); assert r.returncode==0,r.stderr
def build(): return sh(f". /opt/vp/env.sh; cd {W} && cargo test --workspace --no-run --locked --offline")
def tests():
    r=sh(f". /opt/vp/env.sh; cd {W} && cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8")
    return r.returncode==0, r.stdout[-3000:]+r.stderr[-500:]
def main():
    for spec in sys.argv[1:]:
        s={}; exec(open(spec).read(),s)
        refresh()
        d=f"/tmp/vpseed/out/{s['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+"/demo.rs","w").write(s["demo"]); open(d+"/demo.sh","w").write(DEMO_SH); os.chmod(d+"/demo.sh",0o755)
        r=sh(f"cd {W} && bash {d}/demo.sh")
        if r.returncode!=0: print(s["id"],"DEMO FAILS UNPATCHED",r.stdout[-1500:],r.stderr[-1500:]); continue
        ok=True
        for f,a,b in s["edits"]:
            p=f"{W}/{f}"; t=open(p).read()
            if t.count(a)!=1: print(s["id"],"EDIT MATCHES",t.count(a),f,a[:60]); ok=False; break
            open(p,"w").write(t.replace(a,b))
        if not ok: refresh(); continue
        open(d+"/patch.diff","w").write(sh(f"cd {W} && git diff").stdout)
        b=build()
        if b.returncode!=0: print(s["id"],"NO BUILD",b.stderr[-2500:]); refresh(); continue
        t,out=tests()
        if not t: print(s["id"],"TESTS FAIL",out); refresh(); continue
        r=sh(f"cd {W} && bash {d}/demo.sh")
        refresh()
        if r.returncode in (0,3): print(s["id"],"DEMO SAYS",r.returncode,"WITH PATCH",r.stdout[-800:],r.stderr[-800:]); continue
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
        dst=f"{V}/seeded/{s['id']}"; shutil.rmtree(dst,ignore_errors=True); shutil.copytree(d,dst)
        print(s["id"],"OK",(r.stderr or r.stdout).strip().splitlines()[-2:][0][:160] if (r.stderr or r.stdout).strip() else "")
if __name__=="__main__": main()
