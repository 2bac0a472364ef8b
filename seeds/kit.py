"""demo programs against the tree in the current directory, with everything they need packed beside them"""
import os, shutil, subprocess, sys, tarfile, io
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from mkseed import make, ROOT

PACK = ["standins", "shadow", "harness/core-model", "harness/support", "harness/mon-ssz/src/model.rs"]


def pack(dst, extra=()):
    def clean(t):
        t.mtime = 0
        t.uid = t.gid = 0
        t.uname = t.gname = ""
        return None if "/target" in t.name or "__pycache__" in t.name else t
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as tf:
        for p in list(PACK) + list(extra):
            full = os.path.join(ROOT, p)
            if os.path.isdir(full):
                for base, dirs, files in os.walk(full):
                    dirs.sort()
                    for f in sorted(files):
                        q = os.path.join(base, f)
                        tf.add(q, os.path.relpath(q, ROOT), filter=clean)
            else:
                tf.add(full, p, filter=clean)
    r = subprocess.run(["xz", "-9", "-T1", "-c"], input=raw.getvalue(), capture_output=True, check=True)
    open(dst, "wb").write(r.stdout)


DEMO_SH = """#!/bin/bash
# builds a small program against the sources of the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
tar -C "$t" -xJf "$here/kit.tar.xz" || exit 9
mkdir -p "$t/harness/demo/src" || exit 9
cp "$here/demo.toml" "$t/harness/demo/Cargo.toml"; cp "$here/lock" "$t/harness/demo/Cargo.lock"; cp "$here/main.rs" "$t/harness/demo/src/main.rs"
grep -rlE '"/repo/' "$t" --include=Cargo.toml --include=*.rs | xargs -r sed -i "s|\\"/repo/|\\"$repo/|"
cd "$t/harness/demo" || exit 9
export RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0
cargo build -q --offline --release || exit 8
"$t/target/release/demo"
"""


def kit(main, crate="mon-core", extra=()):
    def w(d):
        pack(os.path.join(d, "kit.tar.xz"), extra)
        toml = open(os.path.join(ROOT, "harness", crate, "Cargo.toml")).read().replace(f'name = "{crate}"', 'name = "demo"')
        toml = toml.replace("opt-level = 3", "opt-level = 1")
        open(os.path.join(d, "demo.toml"), "w").write(toml)
        lock = open(os.path.join(ROOT, "harness", crate, "Cargo.lock")).read().replace(f'name = "{crate}"', 'name = "demo"')
        open(os.path.join(d, "lock"), "w").write(lock)
        open(os.path.join(d, "main.rs"), "w").write(main)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    return w
