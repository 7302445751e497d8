#!/usr/bin/env python3
"""plant.py ID PROP 'needs' 'breaks' FILE OLD NEW [FILE OLD NEW ...]  (main.rs from stdin)"""
import sys, os, subprocess, json, shutil
sid, prop, needs, breaks = sys.argv[1:5]
eds = sys.argv[5:]
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", sid); os.makedirs(d, exist_ok=True)
W = "/tmp/plantwt"
subprocess.run(["rm", "-rf", W]); subprocess.run(["cp", "-a", "/repo", W], check=True)
for i in range(0, len(eds), 3):
    p = os.path.join(W, eds[i]); t = open(p, newline="").read()
    old, new = eds[i+1], eds[i+2]
    if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    n = t.count(old)
    if n != 1: print(f"EDIT matches {n} times:", eds[i+1][:80]); sys.exit(1)
    open(p, "w", newline="").write(t.replace(old, new))
diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout
open(f"{d}/patch.diff", "wb").write(diff)
# the lines it takes away must be the original repository's
import re
orig = total = 0
cur = None
for l in subprocess.run(["git", "-C", W, "diff", "-U0"], capture_output=True).stdout.decode("utf-8", "replace").splitlines():
    if l.startswith("--- a/"): cur = l[6:].strip()
    m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
    if m:
        a, n = int(m.group(1)), int(m.group(2) or 1)
        if n == 0: continue
        b = subprocess.run(["git", "-C", W, "blame", "-l", "-s", "-L", f"{a},{a+n-1}", "HEAD", "--", cur], capture_output=True).stdout.decode("utf-8", "replace").splitlines()
        root = subprocess.run(["git", "-C", W, "rev-list", "--count", "HEAD"], capture_output=True, text=True)
        for x in b:
            total += 1; orig += x.startswith("^") or subprocess.run(["git", "-C", W, "merge-base", "--is-ancestor", x.split()[0].lstrip("^"), "ff449cf"]).returncode == 0
print(sid, f"original lines changed: {orig} of {total}")
m = sys.stdin.read()
if m.strip(): open(f"{d}/main.rs", "w").write(m)
open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# builds main.rs against the crate in the working directory and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d/main.rs" "$t/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\namxml = { path = "%s" }\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
cd "$t" || exit 2
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$t/target" cargo build --offline -q || exit 2
( ulimit -v 4000000; timeout 60 "$t/target/debug/demo" )
''')
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
# confirm
r0 = subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo", capture_output=True, text=True)
r1 = subprocess.run(["bash", f"{d}/demo.sh"], cwd=W, capture_output=True, text=True)
env = dict(os.environ, CARGO_TARGET_DIR=W+"/target_t", RUSTFLAGS="-Awarnings")
tt = subprocess.run(["cargo", "test", "--offline", "--locked", "--quiet", "--no-fail-fast"], cwd=W, env=env, capture_output=True, text=True)
fails = [l for l in tt.stdout.splitlines() if l.startswith("test ") and "FAILED" in l or l.startswith("    ")]
print(sid, "demo clean:", r0.returncode, "demo patched:", r1.returncode, "tests rc:", tt.returncode)
if r0.returncode: print(r0.stdout[-500:], r0.stderr[-1500:])
if r1.returncode in (0, 2): print(r1.stdout[-500:], r1.stderr[-1500:])
if tt.returncode: print(tt.stdout[-1500:], tt.stderr[-800:])
subprocess.run(["rm", "-rf", W])
