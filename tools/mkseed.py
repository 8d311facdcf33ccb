#!/usr/bin/env python3
"""mkseed.py SRC...: makes /verif/seeded/<id>/ from a description file and confirms it in a scratch copy.

A description is a Python file that sets: property, needs, breaks, kind (core | files), edits
[(path, old, new)], demo (Rust source). The demonstration of kind `core` gets the crates of the
repository over stand-ins of the cfg crates (kit/); kind `files` names the sources to compile alone.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = "/verif"
SCRATCH = "/tmp/seedwork"

PRELUDE = open(os.path.join(VERIF, "tools", "prelude.rs")).read()

CORE_DEMO = r'''#!/bin/bash
# exit 0: the demonstrated behaviour is right. The work is done in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
work=/tmp/gearley-demo-@ID@
rm -rf /tmp/gearley-demo-@ID@
mkdir -p "$work" || exit 3
cp -r "$here/kit" "$work/kit" || exit 3
sed -i "s|@REPO@|$(pwd)|" "$work"/kit/wrap/*/Cargo.toml
cd "$work/kit/demo" || exit 3
RUSTFLAGS=--cap-lints=allow CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet >"$work/log" 2>&1 || { tail -20 "$work/log"; rm -rf /tmp/gearley-demo-@ID@; exit 3; }
( ulimit -v 8000000; timeout 100 "$work/target/debug/demo" >/dev/null 2>"$work/err" )
rc=$?
tail -5 "$work/err"
rm -rf /tmp/gearley-demo-@ID@
exit $rc
'''

FILES_DEMO = r'''#!/bin/bash
# exit 0: the demonstrated behaviour is right. The work is done in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=/tmp/gearley-demo-@ID@
rm -rf /tmp/gearley-demo-@ID@
mkdir -p "$work/src" || exit 3
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
EOF
sed -i "s|@REPO@|$repo|" "$work/src/main.rs" "$work/Cargo.toml"
cd "$work" || exit 3
RUSTFLAGS=--cap-lints=allow CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet >"$work/log" 2>&1 || { tail -20 "$work/log"; rm -rf /tmp/gearley-demo-@ID@; exit 3; }
( ulimit -v 8000000; timeout 100 "$work/target/debug/demo" >/dev/null 2>"$work/err" )
rc=$?
tail -5 "$work/err"
rm -rf /tmp/gearley-demo-@ID@
exit $rc
'''


def sh(cmd, cwd):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")[-1500:]


def make(src):
    sid = os.path.basename(src)[:-3]
    d = {}
    exec(open(src).read(), d)
    tree = os.path.join(SCRATCH, "repo")
    if not os.path.exists(tree):
        os.makedirs(SCRATCH, exist_ok=True)
        sh(f"git clone -q /repo {tree}", "/")
    sh("git checkout -q . && git clean -fdxq && git pull -q", tree)
    out = os.path.join(VERIF, "seeded", sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if d["kind"] == "core":
        os.makedirs(os.path.join(out, "kit", "demo", "src"))
        ignore = shutil.ignore_patterns("target", "Cargo.lock")
        shutil.copytree(os.path.join(VERIF, "shims"), os.path.join(out, "kit", "shims"), ignore=ignore)
        shutil.copytree(os.path.join(VERIF, "wrap"), os.path.join(out, "kit", "wrap"), ignore=ignore)
        for c in os.listdir(os.path.join(out, "kit", "wrap")):
            p = os.path.join(out, "kit", "wrap", c, "Cargo.toml")
            s = open(p).read().replace('"/repo/', '"@REPO@/')
            open(p, "w").write(s)
        s = open(os.path.join(VERIF, "mon", "core", "Cargo.toml")).read()
        s = "\n".join(l for l in s.splitlines() if not l.startswith("common ")).replace("mon-core", "demo")
        if d.get("log"):
            s = s.replace("[features]", 'log = "0.4"\n' + "".join(
                f'gearley-{c}-log = {{ path = "../../wrap/gearley-{c}-log" }}\n' for c in ("recognizer", "utils")) + "[features]", 1)
        s = s[: s.index("[features]")].replace("../../", "../") + '\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n'
        open(os.path.join(out, "kit", "demo", "Cargo.toml"), "w").write(s)
        shutil.copy(os.path.join(VERIF, "mon", "core", "Cargo.lock"), os.path.join(out, "kit", "demo", "Cargo.lock"))
        open(os.path.join(out, "kit", "demo", "src", "main.rs"), "w").write(PRELUDE + d["demo"])
        demo = CORE_DEMO
    else:
        open(os.path.join(out, "main.rs"), "w").write(d["demo"])
        demo = FILES_DEMO.replace("@DEPS@", d.get("deps", ""))
    open(os.path.join(out, "demo.sh"), "w").write(demo.replace("@ID@", sid))
    for path, old, new in d["edits"]:
        p = os.path.join(tree, path)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{sid}: the text to replace in {path} occurs {s.count(old)} times"
        open(p, "w").write(s.replace(old, new))
    rc, diff = 0, subprocess.run("git diff", shell=True, cwd=tree, stdout=subprocess.PIPE).stdout
    open(os.path.join(out, "patch.diff"), "wb").write(diff)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    # Confirm: with the patch the demonstration fails, without it passes.
    rc1, o1 = sh(f"bash {out}/demo.sh", tree)
    sh("git checkout -q .", tree)
    rc0, o0 = sh(f"bash {out}/demo.sh", tree)
    ok = rc0 == 0 and rc1 not in (0, 3)
    return f"{sid}: {'ok' if ok else 'BAD'} clean={rc0} patched={rc1}\n   patched: {o1.strip()[-300:]}" + ("" if ok else f"\n   clean: {o0}")


for s in sys.argv[1:]:
    print(make(os.path.abspath(s)), flush=True)
