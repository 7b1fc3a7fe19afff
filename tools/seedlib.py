import json, os, subprocess
W="/tmp/mspatch"
def sh(c, cwd=W): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
if not os.path.exists(W): sh(f"git clone -q /repo {W}", "/")
DEMO='''#!/bin/bash
# Run with the repository as the working directory. Builds demo.rs against it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
crevice = { path = "$repo", features = [%s] }
mint = "0.5.9"
bytemuck = "1"
%s
EOF
cd "$t" || exit 99
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo run --quiet --offline%s
'''
def seed(id, prop, edits, demo, needs, breaks, feats='"std"', deps="", flags=""):
    sh("git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD")
    for f, old, new in edits:
        p=os.path.join(W,f); s=open(p).read()
        assert s.count(old)>=1, (id, f, old)
        if s.count(old)>1: print("note", id, f, "matches", s.count(old))
        open(p,"w").write(s.replace(old,new,1))
    d=f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    diff=sh("git diff").stdout; assert diff
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.rs","w").write(demo.strip()+"\n")
    open(d+"/demo.sh","w").write(DEMO%(feats,deps,flags)); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
