#!/usr/bin/env python3
"""Makes planted bugs from a table file and confirms them in a scratch copy of /repo.
   seed.py TABLE.py [ID...]      TABLE.py defines BUGS = [dict(id, prop, edits, demo, features, needs, breaks)]
An edit is (file, old, new) with `old` occurring once.  Writes /verif/seeded/<id>/ for those that
build, pass the 65 tests, fail their demo, and whose demo passes without them."""
import json, os, re, subprocess, sys, shutil, importlib.util
C = "/tmp/seed/repo"
def sh(cmd, cwd, t=900, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=t, **kw)
def ready():
    if not os.path.isdir(C):
        subprocess.run(["cp", "-a", "/repo", C], check=True)
    sh("git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD; git clean -qfd src", C)
DEMO = '''#!/bin/bash
# Run in the repository's root: builds demo.rs against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR
t=$(mktemp -d /tmp/elvdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
elasticlunr-rs = { path = "$repo", default-features = false, features = [FEATURES] }
serde_json = "1"
[profile.dev]
debug = false
EOF
cd "$t" && cargo run --offline --quiet --target-dir "$t/target"
'''
def tests():
    env = ". /opt/vp/env.sh; "
    b = sh(env + "cargo test --workspace --all-features --all-targets --no-run --offline && cargo check --workspace --all-targets --offline", C)
    if b.returncode: return "does not build: " + b.stderr[-1500:]
    t = sh(env + "cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", C)
    n = sum(int(x) for x in re.findall(r"(\d+) passed", t.stdout)); f = sum(int(x) for x in re.findall(r"(\d+) failed", t.stdout))
    if t.returncode or f: return "tests fail: " + " ".join(re.findall(r"test (\S+) \.\.\. FAILED", t.stdout))
    return None
def demo(d):
    r = sh(f"bash {d}/demo.sh", C, 300)
    return r.returncode, (r.stdout + r.stderr)[-600:]
spec = importlib.util.spec_from_file_location("t", sys.argv[1]); T = importlib.util.module_from_spec(spec); spec.loader.exec_module(T)
only = sys.argv[2:]
for b in T.BUGS:
    if only and b["id"] not in only: continue
    out = f"/verif/seeded/{b['id']}"
    if not only and os.path.exists(out + "/patch.diff"): continue
    ready()
    bad = None
    for f, old, new in b["edits"]:
        p = f"{C}/{f}"; s = open(p).read()
        if s.count(old) != 1: bad = f"{f}: {s.count(old)} occurrences of {old!r}"; break
        open(p, "w").write(s.replace(old, new))
    if bad: print("SKIP", b["id"], bad); continue
    diff = sh("git diff", C).stdout
    e = tests()
    if e: print("SKIP", b["id"], e); continue
    w = f"/tmp/seed/{b['id']}"; os.makedirs(w, exist_ok=True)
    open(w + "/demo.rs", "w").write(b["demo"])
    open(w + "/demo.sh", "w").write(DEMO.replace("FEATURES", ", ".join(f'"{x}"' for x in b.get("features", []))))
    rc, o = demo(w)
    if rc == 0 or "could not compile" in o: print("SKIP", b["id"], "demo with the bug:", rc, o); continue
    ready()
    rc, o2 = demo(w)
    if rc: print("SKIP", b["id"], "demo without the bug:", rc, o2); continue
    os.makedirs(out, exist_ok=True)
    for x in ("demo.rs", "demo.sh"): shutil.copy(f"{w}/{x}", out)
    open(out + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1, ensure_ascii=False)
    print("KEPT", b["id"], "|", o.strip().splitlines()[-1][:150] if o.strip() else "", flush=True)
