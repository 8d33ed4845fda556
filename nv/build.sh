#!/bin/bash
# Builds the verifier and the harness binary from /repo's current working tree (offline).
# usage: nv/build.sh [plain]   output: /verif/build/nvh
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
B="$V/build"
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
TC="$(rustc --print sysroot)"
export NV_LLVM_BIN="$TC/lib/rustlib/x86_64-unknown-linux-gnu/bin"
fail() { echo "BUILD-ERROR: $*" >&2; exit 2; }
# 1. the compiler wrapper / IR rewriter
if [ ! -x "$B/nvw" ] || [ "$V/nv/nvw/nvw.rs" -nt "$B/nvw" ]; then
  rustc -O --edition 2021 "$V/nv/nvw/nvw.rs" -o "$B/nvw" || fail "nvw"
fi
# 2. dependencies with assumed contracts
if [ ! -f "$B/deps/.ok" ] || [ "$V/nv/deps/patch_deps.py" -nt "$B/deps/.ok" ]; then
  python3 "$V/nv/deps/patch_deps.py" "$B/deps" && touch "$B/deps/.ok" || fail "patch_deps"
fi
# 3. the harness, linked against the instrumented build of /repo
export NV_CRATES=nyx_space,anise,hifitime,nalgebra,simba,hyperdual,num_traits,num_complex,num_rational,num_integer,num,approx,matrixmultiply,statrs,rand_distr,rstats,medians,indxvec,ran,nvharness
export RUSTC_WRAPPER="$B/nvw"
export RUSTFLAGS="-C target-cpu=generic -C link-arg=-fuse-ld=lld --cfg nyx_verif"
export CARGO_TARGET_DIR="$B/target"
cd "$V/nv/harness" || fail "cd"
if [ ! -f Cargo.lock ]; then cp /repo/Cargo.lock Cargo.lock 2>/dev/null || fail "no Cargo.lock"; fi
cargo build --offline --target x86_64-unknown-linux-gnu >"$B/build.log" 2>&1 || { tail -40 "$B/build.log" >&2; fail "harness build (see $B/build.log)"; }
cp -f "$B/target/x86_64-unknown-linux-gnu/debug/nvh" "$B/nvh.tmp" && mv -f "$B/nvh.tmp" "$B/nvh" || fail "copy"
