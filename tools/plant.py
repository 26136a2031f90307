#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the list below, after confirming each in a scratch copy.
usage: plant.py [id...]"""
import json, os, subprocess, sys, shutil
BASE = "3227413"
ROOT = "/verif/seeded"
SC = "/tmp/plant"
DEMO = r'''#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap '/bin/rm -rf "$D"' EXIT
mkdir "$D/src" && cp "$HERE/demo.rs" "$D/src/main.rs"
cat >"$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dbml-rs = { path = "$PWD", features = ["utils"] }
[lints.rust]
unexpected_cfgs = "allow"
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target" RUSTFLAGS="@FLAGS@"
cargo build -q --offline --manifest-path "$D/Cargo.toml" || exit 3
timeout 120 "$D/target/debug/demo"
'''
PRE = '''#![allow(unused)]
use dbml_rs::ast::*;
use dbml_rs::{parse_dbml, parse_dbml_unchecked};
fn raw(s: &str) -> SchemaBlock<'_> { parse_dbml_unchecked(s).unwrap() }
fn ok(s: &str) { if let Err(e) = parse_dbml(s) { panic!("rejected: {e}") } }
fn bad(s: &str) { assert!(parse_dbml(s).is_err(), "accepted: {s}") }
fn msg(s: &str) -> String { parse_dbml(s).err().expect("accepted").to_string() }
'''
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, flags=""):
    BUGS.append((id, prop, edits, demo, needs, breaks, flags))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "plant_bugs.py")).read())

def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)

def main():
    ids = sys.argv[1:]
    base = {}
    for f in sh(f"git -C /repo ls-tree -r --name-only {BASE} src").stdout.split():
        base[f] = sh(f"git -C /repo show {BASE}:{f}").stdout
    for id, prop, edits, demo, needs, breaks, flags in BUGS:
        if ids and id not in ids: continue
        if not ids and os.path.exists(f"{ROOT}/{id}/meta.json"): continue
        if os.path.exists(SC): shutil.rmtree(SC)
        sh(f"cp -a /repo {SC} && git -C {SC} checkout -q -- .")
        fail = None
        for f, old, new in edits:
            p = f"{SC}/{f}"; s = open(p).read()
            if s.count(old) != 1: fail = f"{f}: {s.count(old)} matches of {old[:50]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if fail: print(id, "FAIL", fail); continue
        diff = sh(f"git -C {SC} diff").stdout
        foreign = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() and not any(l[1:] in b for b in base.values())]
        removed = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if foreign: os.makedirs("/tmp/foreign", exist_ok=True); open(f"/tmp/foreign/{id}.diff", "w").write(diff)
        if foreign: print(id, "FAIL changes lines that are not original:", foreign[:3]); continue
        if not removed: print(id, "note: removes no line")
        d = f"{ROOT}/{id}"; os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@FLAGS@", flags)); os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.rs", "w").write(PRE + demo)
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        t = sh("CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline 2>&1", cwd=SC)
        a = sh(f"bash {d}/demo.sh", cwd=SC)
        c = sh(f"git -C {SC} checkout -q -- . && bash {d}/demo.sh", cwd=SC)
        good = t.returncode == 0 and a.returncode not in (0, 2, 3) and c.returncode == 0
        print(id, "OK" if good else "FAIL", "tests", t.returncode, "demo patched", a.returncode, "clean", c.returncode, flush=True)
        if not good:
            if t.returncode: print("\n".join(x for x in t.stdout.splitlines() if "error" in x or "FAILED" in x or "panicked" in x)[:800])
            if a.returncode in (0, 2, 3): print(a.stdout[-500:], a.stderr[-1500:])
            if c.returncode: print(c.stdout[-500:], c.stderr[-1500:])
            shutil.rmtree(d)
    if os.path.exists(SC): shutil.rmtree(SC)
main()
