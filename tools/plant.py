#!/usr/bin/env python3
"""Development tool: turn bug definitions into /verif/seeded/<id>/ after confirming each in a scratch copy.
usage: plant.py defs.py [id...]
defs.py: BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<rust main.rs> or demo_sh=<script>)]"""
import json, os, re, shutil, subprocess, sys
defs = {}
exec(open(sys.argv[1]).read(), defs)
want = set(sys.argv[2:])
S = "/tmp/plant"
os.makedirs(S, exist_ok=True)
DEMO = '''#!/bin/bash
# Run in the repository. exit 0: behaves as it should; nonzero: broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
rustc --edition 2015 --cap-lints allow -O -C debug-assertions=on -C overflow-checks=on --crate-type rlib --crate-name text_encoding -o "$T/libtext_encoding.rlib" src/lib.rs || exit 3
rustc --edition 2021 --cap-lints allow -O -o "$T/demo" --extern text_encoding="$T/libtext_encoding.rlib" "$D/demo.rs" || exit 3
timeout 200 "$T/demo"
'''
HEAD = "use text_encoding::*;\n"
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
R = S + "/repo"
if not os.path.exists(R):
    shutil.copytree("/repo", R, symlinks=True)
bad = []
for b in defs["BUGS"]:
    if want and b["id"] not in want:
        continue
    sh("git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", R)
    err = None
    for f, old, new in b["edits"]:
        p = R + "/" + f
        t = open(p).read()
        if t.count(old) < 1:
            err = "edit does not match in " + f + ": " + old[:60]
            break
        t = t.replace(old, new, 1)
        open(p, "w").write(t)
    if not err and "py" in b:
        b["py"](R)
    d = "/verif/seeded/" + b["id"]
    tmp = S + "/" + b["id"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    if "demo" in b:
        open(tmp + "/demo.sh", "w").write(DEMO)
        open(tmp + "/demo.rs", "w").write(HEAD + b["demo"])
    else:
        open(tmp + "/demo.sh", "w").write(b["demo_sh"])
    if not err:
        open(tmp + "/patch.diff", "w").write(subprocess.run("git diff", cwd=R, shell=True, stdout=subprocess.PIPE, text=True).stdout)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        r = sh("touch src/*.rs; cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test result|FAILED|failed|^error|panicked' | head -30", R)
        if re.search(r"FAILED|failed;? [1-9]|^error", r.stdout.replace("0 failed", "")) or "test result" not in r.stdout:
            err = "tests: " + r.stdout[:1500]
    if not err:
        r0 = sh("bash %s/demo.sh" % tmp, "/repo")
        if r0.returncode != 0:
            err = "demo fails on the unchanged tree: " + r0.stdout[-1500:]
        r1 = sh("bash %s/demo.sh" % tmp, R)
        if r1.returncode == 0:
            err = (err or "") + " demo passes with the bug"
        elif r1.returncode == 3:
            err = (err or "") + " demo build error: " + r1.stdout[-800:]
    if err:
        bad.append(b["id"])
        print("REJECT", b["id"], err)
    else:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        print("KEEP", b["id"], b["property"], "|", (r1.stdout.strip().splitlines() or [""])[-1][:120])
    sys.stdout.flush()
sh("git checkout -q -- .", R)
print("rejected:", bad)
