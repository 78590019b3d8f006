#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ and confirms every planted change in a scratch copy of /repo.

  plant.py            all seeds that have no folder yet
  plant.py ID...      these seeds, again

The checks never read this file or /verif/seeded."""
import json, os, shutil, subprocess, sys, pathlib

V = pathlib.Path("/verif")
SCRATCH = pathlib.Path("/tmp/seedrepo")
ENV = dict(os.environ, HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_TOOLCHAIN="stable",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_TARGET_DIR=str(SCRATCH / "target"))

SCRIPT = r'''#!/bin/bash
# %(what)s
set -u
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
bad=0
# expect SCRIPT OUTPUT: what the shell prints when it runs the script
expect() {
    printf '%%b' "$1" > "$d/s.ds"
    got=$(cd "$d" && HOME="$d" timeout 120 "$bin" "$d/s.ds" < /dev/null 2> "$d/err")
    rc=$?
    if [ $rc -ne 0 ] || [ "$got" != "$(printf '%%b' "$2")" ]; then
        echo "script: $1"; echo "expected: $2"; echo "got (status $rc): $got"; tail -5 "$d/err"; bad=1
    fi
}
# accepted SCRIPT yes|no: whether the script parses and runs
accepted() {
    printf '%%b' "$1" > "$d/s.ds"
    (cd "$d" && HOME="$d" timeout 120 "$bin" "$d/s.ds" < /dev/null) > "$d/out" 2> "$d/err"
    rc=$?
    a=yes; [ -s "$d/err" ] && a=no
    if [ $rc -ne 0 ] || [ $a != "$2" ]; then echo "script: $1: accepted=$a status=$rc"; tail -5 "$d/err"; bad=1; fi
}
bin=$PWD/target/debug/dunesh
%(body)s
exit $bad
'''

RUST = r'''#!/bin/bash
# %(what)s
set -u
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
lib=$(ls -t target/debug/deps/libdune-*.rlib | head -1)
rustc --edition 2021 -A warnings -C debuginfo=0 -L dependency=target/debug/deps --extern dune="$lib" \
    "$here/demo.rs" -o "$d/demo" || exit 2
cd "$d" && timeout 120 "$d/demo"
'''

BIN = r'''#!/bin/bash
# %(what)s
set -u
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
here=$(cd "$(dirname "$0")" && pwd)
# a copy of the shell with demo.rs as its main function, so that private functions can be called
mkdir -p "$d/r" "$d/t/debug" || exit 2
for f in * .[!.]*; do case "$f" in target|.git) ;; *) [ -e "$f" ] && cp -a "$f" "$d/r/" ;; esac; done
for f in deps .fingerprint build; do cp -a "target/debug/$f" "$d/t/debug/" || exit 2; done
sed -i 's/^fn main() -> /fn shell_main() -> /' "$d/r/src/bin.rs" || exit 2
cat "$here/demo.rs" >> "$d/r/src/bin.rs"
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/t"
cd "$d/r" && cargo build -q --offline --bin dunesh 2> "$d/log" || { tail -20 "$d/log"; exit 2; }
cd "$d" && HOME="$d" timeout 120 "$d/t/debug/dunesh"
'''
SEEDS = []
def seed(id, prop, file, old, new, what, needs, script=None, rust=None, bin=None):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, old, new)] if isinstance(file, str) else file,
                      what=what, needs=needs, script=script, rust=rust, bin=bin))

exec(open(V / "tools/seeds.py").read())

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), env=ENV, cwd=SCRATCH, capture_output=True, text=True, **k)

def build():
    r = sh("rm -rf target/debug/.fingerprint/dune-* target/debug/.fingerprint/dunesh-*; cargo test --workspace --all-targets --no-run --offline")
    return r

def demo(dir):
    lay = pathlib.Path("/tmp/seedlay"); shutil.rmtree(lay, ignore_errors=True); lay.mkdir()
    for f in dir.iterdir():
        if f.suffix not in (".diff", ".patch") and f.name != "meta.json": shutil.copy(f, lay)
    r = sh(["bash", str(lay / "demo.sh")], timeout=300)
    return r

def main():
    ids = sys.argv[1:] or [s["id"] for s in SEEDS if not (V / "seeded" / s["id"]).exists()]
    todo = [s for s in SEEDS if s["id"] in ids]
    if not todo: return
    if not SCRATCH.exists():
        subprocess.run(["cp", "-a", "/repo", str(SCRATCH)], check=True)
    head = subprocess.run("git -C /repo rev-parse HEAD", shell=True, capture_output=True, text=True).stdout.strip()
    sh("git fetch -q /repo HEAD; git checkout -q -f " + head)
    sh("git checkout -q -f ."); build()
    outs = {}
    for s in todo:
        d = pathlib.Path("/tmp/seedout") / s["id"]; shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
        (d / "demo.sh").write_text((SCRIPT if s["script"] else RUST if s["rust"] else BIN) % dict(what=s["what"], body=s["script"] or ""))
        os.chmod(d / "demo.sh", 0o755)
        if s["bin"]: (d / "demo.rs").write_text(s["bin"])
        if s["rust"]: (d / "demo.rs").write_text(s["rust"])
        (d / "meta.json").write_text(json.dumps(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["what"]), indent=1) + "\n")
        r = demo(d)
        outs[s["id"]] = d
        s["clean"] = r.returncode
        if r.returncode: print(s["id"], "demo FAILS on the unchanged tree\n", r.stdout[-1500:], r.stderr[-1500:])
    for s in todo:
        if s["clean"]: continue
        d = outs[s["id"]]
        ok = True
        for f, old, new in s["edits"]:
            p = SCRATCH / f; t = p.read_text()
            if t.count(old) != 1: print(s["id"], f, "old text occurs", t.count(old), "times"); ok = False; break
            p.write_text(t.replace(old, new))
        if ok:
            (d / "patch.diff").write_text(sh("git diff").stdout)
            b = build()
            if b.returncode: print(s["id"], "does not build", b.stderr[-2000:]); ok = False
        if ok:
            t = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8")
            if "13 passed" not in t.stdout or t.returncode: print(s["id"], "tests:", [l for l in t.stdout.splitlines() if "FAILED" in l or "panicked" in l]); ok = False
        if ok:
            build()
            r = demo(d)
            if r.returncode == 0: print(s["id"], "demo passes with the patch"); ok = False
        sh("git checkout -q -f .")
        if ok:
            t = V / "seeded" / s["id"]; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
            print(s["id"], "kept:", r.returncode, (r.stdout + r.stderr).strip().replace("\n", " | ")[:200])

main()
