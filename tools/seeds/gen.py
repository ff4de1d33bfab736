#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from bugs.py. usage: gen.py [--check] [id...]"""
import os, sys, subprocess, shutil, json, tarfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)
from bugs import BUGS
WT = "/tmp/seedwt"
def sh(c, **k): return subprocess.run(c, shell=True, check=True, stdout=subprocess.PIPE, **k).stdout
def kit(base="sim", common="common.rs", out="/tmp/seedkit.tgz"):
    d = "/tmp/seedkit"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo/src")
    files = sh(f"cd {root} && git ls-files shim mirror Cargo.lock").decode().split()
    for f in files:
        os.makedirs(os.path.dirname(f"{d}/{f}"), exist_ok=True); shutil.copy(f"{root}/{f}", f"{d}/{f}")
    toml = open(f"{root}/Cargo.toml").read().replace('"sim", "simsnark"', '"demo"').replace('"sim"', '"demo"').replace("codegen-units = 8", "codegen-units = 16").replace("opt-level = 3", "opt-level = 2").replace("debug = 1", "debug = 0")
    open(d + "/Cargo.toml", "w").write(toml)
    dt = open(f"{root}/{base}/Cargo.toml").read().replace(f'name = "{base}"', 'name = "demo"').replace('[[bin]]\nname = "demo"\npath = "src/main.rs"', '').replace('[[bin]]\nname = "demo"\npath = "../sim/src/main.rs"', '')
    dt += 'libc = "0.2"\n' if "libc" not in dt else ""
    open(d + "/demo/Cargo.toml", "w").write(dt)
    open(d + "/demo/src/main.rs", "w").write("fn main() {}\n")
    lock = open(d + "/Cargo.lock").read().replace(f'name = "{base}"', 'name = "demo"'); open(d + "/Cargo.lock", "w").write(lock)
    sh(f"cd {d} && cargo metadata --offline --format-version 1 >/dev/null")
    shutil.copy(f"{here}/{common}", d + "/demo/src/common.rs")
    sh(f"cd {d} && tar --sort=name --mtime=2024-01-01 --owner=0 --group=0 -cf - . | gzip -9n > {out}")
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; 1: it does not; others: could not be decided
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$t/target
tar xzf "$here/kit.tar.gz" -C "$t" || exit 3
cp "$here/main.rs" "$t/demo/src/main.rs" || exit 3
cd "$t" || exit 3
cargo build --release --offline -p demo >"$t/log" 2>&1 || { grep -A8 '^error' "$t/log"; exit 4; }
timeout 200 "$t/target/release/demo"
'''
def main():
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    kits = {b.get("kit", "sim") for b in BUGS if not want or b["id"] in want}
    if "sim" in kits: kit()
    if "snark" in kits: kit("simsnark", "pcommon.rs", "/tmp/seedkit-snark.tgz")
    if not os.path.exists(WT): sh(f"git -C /repo worktree add --detach {WT} HEAD -f")
    sh(f"git -C {WT} checkout -q --detach $(git -C /repo rev-parse HEAD)")
    for b in BUGS:
        if want and b["id"] not in want: continue
        sh(f"git -C {WT} checkout -q -- .")
        for f, old, new in b["edits"]:
            p = f"{WT}/crates/{f}"; s = open(p).read()
            n = s.count(old)
            assert n >= 1, (b["id"], f, old)
            assert n == 1 or b.get("first"), (b["id"], f, n)
            open(p, "w").write(s.replace(old, new, 1))
        d = f"{root}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "wb").write(sh(f"git -C {WT} diff"))
        open(f"{d}/main.rs", "w").write('#![allow(warnings)]\ninclude!("common.rs");\n' + b["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
        shutil.copy("/tmp/seedkit-snark.tgz" if b.get("kit") else "/tmp/seedkit.tgz", f"{d}/kit.tar.gz")
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    sh(f"git -C /repo worktree remove --force {WT}")
main()
