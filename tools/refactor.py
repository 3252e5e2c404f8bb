#!/usr/bin/env python3
"""Maintenance: behaviour-preserving rewrites of /repo, on which every check has to stay quiet.
   refactor.py SPEC.py [--make | --run] [id...]
   --make: build each in /tmp/sb/repo, run the tests, write tools/refactors/<id>.diff
   --run:  apply each to /repo, run all checks (or CHECKS), undo"""
import os, re, subprocess, sys, runpy, time
S = "/tmp/sb/repo"; D = "/verif/tools/refactors"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
spec, mode, only = sys.argv[1], sys.argv[2], sys.argv[3:]
for id, edits in runpy.run_path(spec)["REFACTORS"].items():
    if only and id not in only: continue
    f = f"{D}/{id}.diff"
    if mode == "--make":
        sh(f"git -C {S} fetch -q /repo && git -C {S} checkout -qf FETCH_HEAD && git -C {S} clean -fdq")
        bad = None
        for path, old, new in edits:
            p = f"{S}/{path}"; s = open(p).read()
            if s.count(old) != 1: bad = f"{path}: {s.count(old)} x {old[:80]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if bad: print(id, bad); continue
        r = sh(f". /opt/vp/env.sh; cd {S} && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1")
        if r.returncode: print(id, "tests fail\n", r.stdout[-3000:]); continue
        open(f, "w").write(sh(f"git -C {S} diff").stdout); sh(f"git -C {S} checkout -q -- .")
        print(id, "made")
    else:
        r = sh(f"git -C /repo apply {f}")
        if r.returncode: print(id, "does not apply"); continue
        try:
            for c in (os.environ.get("CHECKS") or " ".join(f"C{i:02}" for i in [*range(1, 15), 22])).split():
                t = time.time(); r = sh(f"/verif/check.sh {c}", cwd="/verif")
                lines = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
                print(id, c, "exit", r.returncode, f"{time.time()-t:.0f} s", "" if r.returncode == 0 else "\n   " + "\n   ".join(lines[-6:])[:1500], flush=True)
        finally:
            sh("git -C /repo checkout -q -- .")
