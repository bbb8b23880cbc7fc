#!/usr/bin/env python3
"""mkseed.py ID: completes /verif/seeded/ID (which holds main.rs and edit.json) with the demonstration's other files
and patch.diff. edit.json: {"property","needs","what_it_breaks","edits":[[file, old, new],...]}"""
import json, os, re, shutil, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = ["tl", "wire", "nodes", "serve", "dhtw", "rldpw", "overw"]
def need(text, seen):
    for m in MODS:
        if m in seen: continue
        if re.search(r'\b(mod|crate::)?\s*%s\b(;|::)' % m, text):
            p = f"{root}/harness/src/{m}.rs"
            if os.path.exists(p):
                seen.append(m); need(open(p).read(), seen)
    return seen
def run(i):
    src = f"{root}/tools/seeds/{i}.rs"; e = json.load(open(f"{root}/tools/seeds/{i}.json"))
    d = f"{root}/seeded/{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/src")
    main = open(src).read()
    mods = need(main, [])
    mods = [m for m in MODS if m in mods]
    head = "".join(f"#[allow(dead_code)]\nmod {m};\n" for m in mods + ["rt"])
    main = re.sub(r'^use (%s|rt)::' % "|".join(MODS), r'use crate::\1::', main, flags=re.M)
    docs = "".join(l for l in main.splitlines(True) if l.startswith("//!")); main = "".join(l for l in main.splitlines(True) if not l.startswith("//!"))
    open(d + "/src/main.rs", "w").write(docs + "#![allow(unused_imports)]\n" + head + main)
    for m in mods: shutil.copy(f"{root}/harness/src/{m}.rs", d + "/src/")
    shutil.copy(root + "/tools/kit_rt.rs", d + "/src/rt.rs")
    shutil.copy(root + "/tools/kit_demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    t = open(root + "/harness/Cargo.toml").read().replace('name = "evmon"', 'name = "demo"').replace('path = "../../repo"', 'path = "@REPO@"')
    t = re.sub(r'\[features\]\n(?:[^\[\n].*\n?)*', '', t)
    open(d + "/Cargo.toml.in", "w").write(t)
    l = open(root + "/harness/Cargo.lock").read().replace('name = "evmon"', 'name = "demo"')
    open(d + "/Cargo.lock", "w").write(l)
    wt = f"/tmp/mkseed-{i}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", wt])
    base = subprocess.check_output(["git", "-C", wt, "show", "--name-only", "--format=", "3347b8b"], text=True)
    for f, old, new in e["edits"]:
        p = f"{wt}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    r = subprocess.run(["cargo", "fmt"], cwd=wt, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable"), stderr=subprocess.DEVNULL)
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    # every removed line has to be an original one
    for f in {x[0] for x in e["edits"]}:
        bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "--abbrev=12", f], text=True).splitlines()
        cur = open("/repo/" + f).read().splitlines()
        hunk = re.findall(r'^@@ -(\d+)', subprocess.check_output(["git", "-C", wt, "diff", "-U0", f], text=True), flags=re.M)
        df = subprocess.check_output(["git", "-C", wt, "diff", "-U0", f], text=True)
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', df, flags=re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for k in range(a, a + n):
                if not bl[k-1].startswith("^"):
                    print("NOT ORIGINAL:", f, k, bl[k-1])
    shutil.rmtree(wt)
    json.dump({k: e[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    print(i, "made,", len(diff.splitlines()), "diff lines, mods", mods)
for i in sys.argv[1:]: run(i)
