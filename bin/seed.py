#!/usr/bin/env python3
"""Planted bugs.
   make(...)            build seeded/<id> and keep it only if it is a fair one (see confirm)
   seed.py confirm ID.. in a scratch copy of /repo: builds, passes the stable tests, demo passes without and fails with the patch
   seed.py run ID..     apply to /repo, run the check of its property at quick, undo
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTFLAGS="-W pub_use_of_private_extern_crate", CARGO_INCREMENTAL="1")
PKGS = ["-p", "json", "-p", "json_derive", "-p", "json_quote", "-p", "json_parse"]

DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on the cases in main.rs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
json = { path = "$repo" }
TOML
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTFLAGS="-W pub_use_of_private_extern_crate -A warnings" CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 3
cargo build --offline -q || exit 1
timeout 60 "$t/target/debug/demo"
'''

# for the crates that only work inside a procedural macro: pm.rs is the macro crate, which main.rs uses
DEMO_PM = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on the cases in pm.rs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/pm/src"
cp "$here/pm.rs" "$t/pm/src/lib.rs"
echo 'fn main() { let r: &str = pm::run!(); print!("{}", r); std::process::exit(if r.is_empty() { 0 } else { 1 }) }' > "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
pm = { path = "pm" }
TOML
cat > "$t/pm/Cargo.toml" <<TOML
[package]
name = "pm"
version = "0.1.0"
edition = "2018"
[lib]
proc-macro = true
[dependencies]
json_quote = { path = "$repo/json_derive/quote" }
json_parse = { path = "$repo/json_derive/parse" }
TOML
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTFLAGS="-W pub_use_of_private_extern_crate -A warnings" CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 3
cargo build --offline -q || exit 1
timeout 60 "$t/target/debug/demo"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def tests(repo):
    code, out = sh(["cargo", "test", *PKGS, "--lib", "--no-fail-fast", "--offline"], cwd=repo, env=dict(ENV, CARGO_TARGET_DIR="/tmp/seedwork/target"))
    ok = {l.split()[1] for l in out.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
    return code == 0 and len(ok) >= 18, out


def confirm(sid):
    d = f"{V}/seeded/{sid}"
    os.makedirs("/tmp/seedwork", exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp/seedwork")
    repo = t + "/repo"
    try:
        sh(["git", "clone", "-q", "/repo", repo])
        demo = t + "/demo"
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.remove(demo + "/" + f)
        code, out = sh(["bash", demo + "/demo.sh"], cwd=repo)
        if code != 0:
            return False, "demo fails on the unchanged tree:\n" + out[-3000:]
        code, out = sh(["git", "apply", d + "/patch.diff"], cwd=repo)
        if code != 0:
            return False, "patch does not apply: " + out
        ok, out = tests(repo)
        if not ok:
            return False, "existing tests fail:\n" + out[-3000:]
        code, out = sh(["bash", demo + "/demo.sh"], cwd=repo)
        if code == 0:
            return False, "demo passes with the patch"
        return True, out[-300:]
    finally:
        shutil.rmtree(t)


def make(sid, prop, edits, needs, breaks, demo, pm=False):
    """edits: list of (file, old, new); old must occur exactly once (or give (file, old, new, occurrence))."""
    d = f"{V}/seeded/{sid}"
    t = tempfile.mkdtemp(dir="/tmp/seedwork")
    try:
        sh(["git", "clone", "-q", "/repo", t + "/repo"])
        for e in edits:
            f, old, new = e[:3]
            p = f"{t}/repo/{f}"
            s = open(p).read()
            n = s.count(old)
            if len(e) == 3:
                if n != 1:
                    print(f"{sid}: {n} occurrences of {old!r}"); return False
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                k = e[3]
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            open(p, "w").write(s)
        _, diff = sh(["git", "diff"], cwd=t + "/repo")
    finally:
        shutil.rmtree(t)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_PM if pm else DEMO)
    open(d + ("/pm.rs" if pm else "/main.rs"), "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    ok, out = confirm(sid)
    print(("KEPT " if ok else "DROPPED ") + sid + ("" if ok else ": " + out[:700]), flush=True)
    if not ok:
        shutil.rmtree(d)
    return ok


def run(sid, props=None):
    d = f"{V}/seeded/{sid}"
    prop = json.load(open(d + "/meta.json"))["property"]
    code, out = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    assert code == 0, out
    try:
        for p in props or [prop]:
            code, out = sh(["python3", "bin/check.py", p, "quick"], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            caught = code == 1 and f"VIOLATION property={p} " in out
            print(f"{sid} {p}: {'caught' if caught else 'MISSED'} (exit {code})" + ("" if caught else "\n" + out[-800:]), flush=True)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        if cmd == "confirm":
            ok, out = confirm(i)
            print(i, "fair" if ok else "NOT FAIR " + out, flush=True)
        else:
            run(i)
