#!/usr/bin/env python3
"""Helper for planting bugs: mkseed.py FILE.py, where FILE.py defines
SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)...],
demo=<rust main.rs text or None>, sh=<demo.sh text or None>, features, rustflags, deps, env)}."""
import sys, os, json, subprocess, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
TPL = '''#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
baokeshed = { path = "$R"%(feat)s }
reference_impl = { path = "$R/reference_impl" }
%(deps)s
[profile.release]
debug-assertions = true
overflow-checks = true
[workspace]
X
cd "$T" || exit 3
unset CARGO_TARGET_DIR
%(env)sRUSTFLAGS="-Awarnings%(rf)s" cargo run --offline --release -q
'''
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    for i, s in seeds.items():
        if not os.path.isdir(W):
            sh("git", "-C", "/repo", "worktree", "prune")
            sh("git", "-C", "/repo", "worktree", "add", "-f", "--detach", W, "HEAD")
        sh("git", "-C", W, "checkout", "-q", "--detach", sh("git", "-C", "/repo", "rev-parse", "HEAD").strip())
        sh("git", "-C", W, "checkout", "--", ".")
        for f, old, new in s["edits"]:
            p = W + "/" + f
            t = open(p).read()
            assert t.count(old) == 1, (i, f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d = f"{R}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git", "-C", W, "diff"))
        sh("git", "-C", W, "checkout", "--", ".")
        if s.get("demo"):
            open(d + "/demo.rs", "w").write(s["demo"])
            feat = s.get("features", "")
            open(d + "/demo.sh", "w").write(TPL % dict(
                feat=f', features = ["{feat}"]' if feat else "", deps=s.get("deps", ""),
                env=s.get("env", ""), rf=" " + s["rustflags"] if s.get("rustflags") else ""))
        else:
            open(d + "/demo.sh", "w").write(s["sh"])
        for n, t in s.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(i, "written")
    sh("git", "-C", "/repo", "worktree", "remove", "--force", W)
main()
