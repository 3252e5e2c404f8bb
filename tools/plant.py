#!/usr/bin/env python3
"""Maintenance: make a planted bug from edits and confirm it.
   plant.py SPEC.py [id...]   SPEC defines BUGS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo, features)]
Works in a scratch copy of /repo at /tmp/sb/repo; writes /verif/seeded/<id>/ only if everything is confirmed."""
import json, os, re, subprocess, sys, runpy
S = "/tmp/sb/repo"
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, 1 if it is broken
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/demo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
elasticlunr-rs = { path = "$repo", features = [FEATURES] }
serde = "1"
serde_json = "1"
EOF
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" cargo build -q --offline 2>"$t/log" || { cat "$t/log"; exit 2; }
timeout 120 "$t/target/debug/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh(f"git -C {S} checkout -q -- . && git -C {S} clean -fdq")
def tests():
    r = sh(f". /opt/vp/env.sh; cd {S} && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1")
    ok = set(re.findall(r"^test (\S+) .*\.\.\. ok", r.stdout, re.M)); bad = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M)
    return r.returncode == 0, len(ok), bad, r.stdout
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; only = sys.argv[2:]
    sh(f"git -C {S} fetch -q /repo && git -C {S} checkout -q FETCH_HEAD")
    for b in bugs:
        if only and b["id"] not in only: continue
        clean()
        d = f"/tmp/sb/out/{b['id']}"; os.makedirs(d, exist_ok=True)
        open(d + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO.replace("FEATURES", ", ".join(f'"{x}"' for x in b.get("features", []))))
        os.chmod(d + "/demo.sh", 0o755)
        lock = "/tmp/sb/demo.lock"
        sh(f"cp {lock} {d}/demo.lock")
        r0 = sh(f"bash {d}/demo.sh", cwd=S)
        if r0.returncode != 0: print(b["id"], "demo fails on the clean tree", r0.returncode, r0.stdout[-1500:]); continue
        bad = None
        for f, old, new in b["edits"]:
            p = f"{S}/{f}"; s = open(p).read()
            if s.count(old) != 1: bad = f"{f}: {s.count(old)} x {old[:60]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if bad: print(b["id"], bad); clean(); continue
        diff = sh(f"git -C {S} diff").stdout
        r1 = sh(f"bash {d}/demo.sh", cwd=S)
        ok, n, failed, out = tests()
        clean()
        if r1.returncode != 1: print(b["id"], "demo with the bug:", r1.returncode, r1.stdout[-1500:]); continue
        if not ok: print(b["id"], "tests fail:", failed, out[-1500:] if not failed else ""); continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if b["id"] not in runpy.run_path(sys.argv[1]).get("NOT_KEPT", ()): sh(f"rm -rf /verif/seeded/{b['id']} && mkdir -p /verif/seeded && cp -r {d} /verif/seeded/{b['id']}")
        print(b["id"], "confirmed;", n, "tests pass; demo says:", r1.stdout.strip()[-200:])
main()
