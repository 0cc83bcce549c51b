#!/usr/bin/env python3
"""Plant a bug in a scratch copy of the repository and keep it in /verif/seeded when it is a
realistic one: it builds, all stable tests still pass, and its demonstration exits 0 on the
unchanged tree and nonzero with the patch.

usage: plant.py ID...      (definitions: tools/seeds.py; scratch: /tmp/seed/{repo,vp})
"""
import json, os, pathlib, shutil, subprocess, sys, time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds

SCR = pathlib.Path("/tmp/seed/repo")
VP = pathlib.Path("/tmp/seed/vp")
OUT = pathlib.Path("/verif/seeded")

DEMO = r'''#!/bin/bash
# cwd: the repository under test.  Exit 0: the property held on this input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$t/Cargo.lock"
sed "s#@REPO@#$repo#g" > "$t/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.release]
debug = false
@PROFILE@
[dependencies]
@DEPS@
TOML
export CARGO_TARGET_DIR=$t/target @ENV@
cd "$t" || exit 2
cargo @TOOLCHAIN@ build --offline --release -q || exit 3
timeout 240 "$t/target/release/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh("git checkout -- . ", cwd=SCR)


def write_demo(d, s):
    d.mkdir(parents=True, exist_ok=True)
    deps = "\n".join(s["deps"]) if not isinstance(s["deps"], str) else s["deps"]
    deps = deps.replace("@", "@REPO@/crates/")
    env = s.get("env", "")
    rf = s.get("rustflags", "")
    env = (env + (f' RUSTFLAGS="{rf}"' if rf else ' RUSTFLAGS=')).strip()
    txt = (DEMO.replace("@DEPS@", deps).replace("@ENV@", env)
           .replace("@PROFILE@", s.get("profile", "")).replace("@TOOLCHAIN@", s.get("toolchain", "")))
    if s.get("miri"):
        i = txt.index("cargo  build")
        txt = txt[:i] + (f'export XDG_CACHE_HOME=$t/cache\ncargo +nightly miri setup --target {s["miri"]} >"$t/log" 2>&1 || {{ cat "$t/log"; exit 3; }}\n'
                         f'timeout 240 cargo +nightly miri run --offline -q --target {s["miri"]}\n')
    (d / "demo.sh").write_text(txt)
    (d / "main.rs").write_text(s["demo"].lstrip("\n"))
    (d / "meta.json").write_text(json.dumps(
        {"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")


def demo(d):
    t = time.time()
    r = sh(f"bash {d}/demo.sh", cwd=SCR)
    return r.returncode, r.stdout[-600:], time.time() - t


def plant(bid):
    s = seeds.SEEDS[bid]
    reset()
    stage = pathlib.Path("/tmp/seed/stage") / bid
    shutil.rmtree(stage, ignore_errors=True)
    write_demo(stage, s)
    rc, out, dt = demo(stage)
    if rc != 0:
        return f"demo fails on the unchanged tree rc={rc}: {out}"
    for f, old, new in s["edits"]:
        p = SCR / f
        x = p.read_text()
        if x.count(old) != s.get("count", 1):
            return f"{f}: {x.count(old)} matches of {old!r}"
        p.write_text(x.replace(old, new))
    (stage / "patch.diff").write_text(sh("git diff", cwd=SCR).stdout)
    rc, out, dt = demo(stage)
    if rc == 0:
        reset()
        return "demo passes with the patch"
    msg = f"demo rc={rc} {dt:.0f}s: {out.strip()[-160:]!r}"
    if rc == 3:
        reset()
        return "does not compile: " + out
    r = sh(f"bash {VP}/build.sh")
    if r.returncode:
        reset()
        return "build fails: " + r.stdout[-800:]
    sh(f"bash {VP}/test.sh /tmp/seed/out.{bid}.json")
    res = json.load(open(f"/tmp/seed/out.{bid}.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    passed = set(res.get("passed", res.get("pass", [])))
    bad = [t for t in base["stable"] if t not in passed]
    reset()
    if bad:
        return f"stable tests fail ({len(bad)}): {bad[:4]}"
    dst = OUT / bid
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(stage, dst)
    return "KEPT " + msg


if __name__ == "__main__":
    for b in sys.argv[1:] or list(seeds.SEEDS):
        if (OUT / b).exists() and len(sys.argv) == 1:
            continue
        print(f"{time.strftime('%H:%M:%S')} {b}: {plant(b)}", flush=True)
