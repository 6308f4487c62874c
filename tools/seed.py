#!/usr/bin/env python3
"""Plant bugs: seed.py SPECS.py [ID...]

SPECS.py defines SEEDS = [dict(id, property, edits=[(file, old, new), ...], needs, breaks, demo)].
Each is tried in a private copy of /repo (mounted over /repo in a namespace of its own): the change
must build, the stable tests must pass, and the demo must exit 0 without it and nonzero with it.
Only then is it written to /verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, runpy

BOX = os.environ.get("SEEDBOX", "/tmp/seedbox")
PRELUDE = '''#![allow(unused)]
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile, SymbolTable, SourceInfo};
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::ast::*;
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::*;
use lc3_ensemble::sim::mem::*;
use lc3_ensemble::sim::device::*;
fn asm(src: &str) -> ObjectFile { assemble_debug(parse_ast(src).unwrap(), src).unwrap() }
fn words(o: &ObjectFile) -> Vec<(u16, u16)> {
    let mut v: Vec<_> = o.addr_iter().filter_map(|(a, w)| w.map(|w| (a, w))).collect();
    v.sort(); v
}
'''
DEMO_SH = r'''#!/bin/bash
# Run with cwd at the repository, after its build. Exits 0 iff the property holds for this demonstration.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/" || exit 9
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
lc3-ensemble = { path = "$repo" }
E
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" && timeout 250 cargo run --offline --quiet
'''

def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def boxed(cmd):
    return sh(f"unshare -Urm bash -c 'mount --bind {BOX}/repo /repo && cd /repo && {cmd}'")

def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    os.makedirs(BOX, exist_ok=True)
    for s in specs:
        if want and s["id"] not in want: continue
        out = f"/verif/seeded/{s['id']}"
        if os.path.exists(out + "/patch.diff") and not want: continue
        sh(f"rsync -a --delete --exclude=/target /repo/ {BOX}/repo/")
        os.makedirs(f"{BOX}/{s['id']}", exist_ok=True)
        d = f"{BOX}/{s['id']}"
        open(d + "/demo.rs", "w").write(PRELUDE + s["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(DEMO_SH)
        r = boxed(f"bash {d}/demo.sh")
        if r.returncode != 0:
            print(s["id"], "DEMO FAILS UNPATCHED", r.stdout[-1500:]); continue
        ok = True
        for f, old, new in s["edits"]:
            p = f"{BOX}/repo/{f}"; t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT", f, "matches", t.count(old)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        patch = sh(f"git -C {BOX}/repo diff").stdout
        # lines added since the original commit may not be touched
        if os.path.exists(f"{BOX}/out.json"): os.remove(f"{BOX}/out.json")
        r = boxed("timeout 200 bash /opt/vp/build.sh")
        if r.returncode != 0: print(s["id"], "BUILD", r.stdout[-1500:]); continue
        boxed(f"timeout 90 bash /opt/vp/test.sh {BOX}/out.json")
        if not os.path.exists(f"{BOX}/out.json"): print(s["id"], "TESTS HANG"); continue
        o = json.load(open(f"{BOX}/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        miss = set(b["stable"]) - set(o["passed"])
        if miss: print(s["id"], "TESTS FAIL", sorted(miss)[:5]); continue
        r = boxed(f"bash {d}/demo.sh")
        if r.returncode == 0: print(s["id"], "DEMO PASSES PATCHED"); continue
        if "could not compile" in r.stdout: print(s["id"], "DEMO COMPILE", r.stdout[-800:]); continue
        os.makedirs(out, exist_ok=True)
        shutil.copy(d + "/demo.rs", out); shutil.copy(d + "/demo.sh", out)
        open(out + "/patch.diff", "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        print(s["id"], "OK:", [l for l in r.stdout.splitlines() if l.strip()][:2][-1][:150])
if __name__ == "__main__": main()
