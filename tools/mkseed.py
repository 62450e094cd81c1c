#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a description: edits of /repo (old text -> new text) and a demo.
Usage: mkseed.py FILE.py  (FILE.py defines SEEDS: list of dict(id, property, needs, breaks, edits, demo[, hooks]))."""
import json, os, runpy, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds on the demonstrated input.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/bin:/usr/bin:/bin}"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$tmp/target" RUST_BACKTRACE=0
export RUSTFLAGS="-Awarnings --cfg auto_palette_verif"
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
auto-palette = { path = "$repo" }
rand = "0.8.5"
num-traits = "0.2.15"
[profile.dev]
opt-level = 2
[workspace]
TOML
timeout 280 cargo run --offline --quiet --manifest-path "$tmp/Cargo.toml"
'''
PRELUDE = '''#![allow(unused)]
use auto_palette::image::ImageData;
use auto_palette::swatch::Swatch;
use auto_palette::verif::*;
use rand::SeedableRng;

fn image(w: u32, h: u32, f: impl Fn(u32, u32) -> [u8; 4]) -> Vec<u8> {
    (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).flat_map(|(x, y)| f(x, y)).collect()
}
fn palette(data: &[u8], w: u32, h: u32) -> Vec<Swatch<f64>> {
    ImageData::new(data, w, h).extract()
}
fn rng(seed: u64) -> rand::rngs::StdRng {
    rand::rngs::StdRng::seed_from_u64(seed)
}
'''


def make(seed):
    d = os.path.join(ROOT, "seeded", seed["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run(f"git -C {REPO} archive HEAD | tar x -C {tmp}", shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, check=True, cwd=tmp)
        for path, old, new in seed["edits"]:
            p = os.path.join(tmp, "src", path)
            s = open(p).read()
            assert s.count(old) == 1, (seed["id"], path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tmp, stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + seed["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    lock = open(os.path.join(ROOT, "harness", "Cargo.lock")).read().replace('name = "ap-harness"', 'name = "demo"')
    open(os.path.join(d, "demo.lock"), "w").write(lock)
    json.dump(dict(property=seed["property"], needs=seed["needs"], what_it_breaks=seed["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        make(s)
        print(s["id"])
