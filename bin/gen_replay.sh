#!/bin/bash
# gen_replay.sh WORK : builds WORK/rt/release/replay, which runs one harness natively against the real crate
# (real hash maps, real files, nothing patched).
set -eu
W=$1; V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$W/replay/src"
cp "$V/bin/replay_main.rs" "$W/replay/src/main.rs"
{
  echo 'extern "Rust" {'
  grep -rhoE '^pub fn h_[a-z0-9_]+' "$V/harness/src" | sed 's/pub fn \(.*\)/    fn \1();/' | sort -u
  echo '}'
  echo 'pub fn dispatch(n: &str) { unsafe { match n {'
  grep -rhoE '^pub fn h_[a-z0-9_]+' "$V/harness/src" | sed 's/pub fn \(.*\)/    "\1" => \1(),/' | sort -u
  echo '    _ => panic!("unknown harness") } } }'
} > "$W/replay/src/table.rs"
cat > "$W/replay/Cargo.toml" <<T
[package]
name = "replay"
version = "0.1.0"
edition = "2021"
[dependencies]
gbharness = { path = "$V/harness" }
[profile.release]
panic = "unwind"
opt-level = 1
overflow-checks = true
debug-assertions = true
incremental = false
debug = 1
[workspace]
T
cp /repo/Cargo.lock "$W/replay/Cargo.lock"
cd "$W/replay" && RUSTFLAGS="-A warnings" CARGO_TARGET_DIR="$W/rt" cargo build --release --offline -q
