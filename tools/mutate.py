#!/usr/bin/env python3
"""Maintenance: small mechanical changes of /repo's library sources (in a scratch copy); those that compile and pass
   the stable tests are run against the checks with few runs each.
   mutate.py setup            scratch copies /tmp/mv/repo and /tmp/mv/sim
   mutate.py list [file...]   what would be tried
   mutate.py run OUT [file...]
"""
import os, re, subprocess, sys, json, time
M = "/tmp/mv"; R = M + "/repo"; S = M + "/sim"
CORE = ["config", "document_store", "inverted_index", "lib", "pipeline", "lang/common", "lang/mod", "lang/zh", "lang/ja", "lang/ko", "lang/ar", "lang/ru", "lang/en"]
PROPS = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C13 C14 C22".split()
RUNS = {"C13": 4000}
def sh(cmd, t=600, **k):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        class X: returncode = 124; stdout = "timeout"
        return X
SUBS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?! *\{)", "&&"),
        (r"\+= 1\b", "+= 2"), (r"\+= 1\b", "-= 1"), (r"-= 1\b", "-= 0"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\.chars\(\)", ".chars().rev()"),
        (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.into_iter\(\)", ".into_iter().take(100)"), (r"\.unwrap_or\(([^()]*)\)", ".unwrap()"),
        (r"Some\(([a-z_.]+)\)", "None"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.is_some\(\)", ".is_none()"), (r"\.contains_key\(([^()]*)\)", ".is_empty()"),
        (r"\.filter\(", ".take_while("), (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\.to_lowercase\(\)", ".to_string()"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
        (r"\bcontinue;", "break;"), (r"\bbreak;", ""), (r"\breturn;", ""), (r"\.trim\(\)", ""), (r"as f64", "as f32 as f64"), (r"\busize\b", "u16"), (r"\bi64\b", "i16"), (r"\bu32\b", "u8"),
        (r"skip_serializing_if = \"[^\"]*\"", "default"), (r"serde\(default\)", "serde(skip)")]
def mutants(f):
    p = f"{R}/src/{f}.rs"; L = open(p).read().split("\n")
    end = next((i for i, l in enumerate(L) if "#[cfg(test)]" in l and i + 1 < len(L) and L[i+1].startswith("mod ")), len(L))
    depth_words = 0
    for i in range(end):
        l = L[i]; c = l.strip()
        if c.startswith("//") or not c: continue
        if re.match(r'^("[^"]*",?\s*)+$', c): continue          # word lists
        for a, b in SUBS:
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: yield (f, i, n)
        if c.endswith(";") and not c.startswith(("use ", "let ", "pub ", "extern ", "mod ", "type ", "return")):
            yield (f, i, "")
def run_mutant(f, i, n):
    p = f"{R}/src/{f}.rs"; orig = open(p).read(); L = orig.split("\n"); old = L[i]; L[i] = n
    d = {"file": f, "line": i + 1, "old": old.strip(), "new": n.strip()}
    try:
        open(p, "w").write("\n".join(L))
        r = sh(f". /opt/vp/env.sh; cd {R} && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1", 300)
        if r.returncode: d["res"] = "build" if "could not compile" in r.stdout else "tests"; return d
        r = sh(f". /opt/vp/env.sh; unset CARGO_INCREMENTAL; cd {S} && cargo build -q --release --offline --locked --features base 2>&1")
        if r.returncode: d["res"] = "simbuild"; return d
        d["res"] = "survived"; d["by"] = {}
        for c in PROPS:
            r = sh(f"ESIM_ROOT={M} {S}/target/release/esim check --prop {c} --runs {RUNS.get(c, 1200)} --cap 60", 200)
            if r.returncode: d["by"][c] = r.returncode; d["res"] = "caught"
            if r.returncode == 1: break
        if f.startswith("lang/") and d["res"] == "survived":
            r = sh(f". /opt/vp/env.sh; unset CARGO_INCREMENTAL; cd {S} && cargo build -q --release --offline --locked --features all --target-dir target-all 2>&1")
            r = sh(f"ESIM_ROOT={M} {S}/target-all/release/esim check --prop C11 --runs 1500 --cap 60", 300)
            if r.returncode: d["by"]["C11"] = r.returncode; d["res"] = "caught"
        return d
    finally:
        open(p, "w").write(orig); sh(f"rm -rf {M}/replays {M}/evidence; mkdir -p {M}/replays {M}/evidence")
if sys.argv[1] == "setup":
    sh(f"rm -rf /tmp/mv; mkdir -p {M}/replays {M}/evidence; cp -a /repo {R}; git -C {R} checkout -q -- .; cp -a /verif/sim {S}; sed -i s,/repo,{R}, {S}/Cargo.toml; cp /verif/known-findings.txt {M}; sed -i 's/\"languages\"/\"languages\"/' {S}/Cargo.toml")
elif sys.argv[1] == "list":
    n = 0
    for f in sys.argv[2:] or CORE:
        for m in mutants(f): n += 1; print(m[0], m[1] + 1, m[2].strip())
    print(n)
else:
    out = sys.argv[2]; done = set()
    if os.path.exists(out): done = {(j["file"], j["line"], j["new"]) for j in map(json.loads, open(out))}
    for f in sys.argv[3:] or CORE:
        for m in list(mutants(f)):
            if (m[0], m[1] + 1, m[2].strip()) in done: continue
            d = run_mutant(*m); open(out, "a").write(json.dumps(d) + "\n")
