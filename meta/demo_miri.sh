#!/bin/bash
# Run with cwd = the repository. Builds a small program against it and runs it:
# exit 0 if it behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/scratch"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock.in" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
hastur = { path = "$repo" }
nom = { version = "4.2", features = ["verbose-errors"] }
[workspace]
E
export RUSTFLAGS="-A semicolon_in_expressions_from_macros -Awarnings"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}"
cd "$d" || exit 3
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
export CARGO_TARGET_DIR="$d/target"
timeout 280 cargo +nightly miri run --offline -q
