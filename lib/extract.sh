#!/bin/bash
# usage: extract.sh REPO OUTDIR   -- type-check REPO with the extractor as the
# workspace wrapper; writes OUTDIR/narrow.json and OUTDIR/narrow_ffi.json.
set -u
repo=$1; out=$2
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
unset RUSTDOCFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUSTC
sysroot=$(rustc +nightly --print sysroot) || exit 2
export LD_LIBRARY_PATH="$sysroot/lib"
drv=$here/build/driver
if [ ! -x "$drv" ] || [ "$here/driver/driver.rs" -nt "$drv" ]; then
  mkdir -p "$here/build"
  tmp=$(mktemp -p "$here/build" drv.XXXXXX) || exit 2
  rustc +nightly --edition 2024 -O --cap-lints allow "$here/driver/driver.rs" -o "$tmp" >&2 || exit 2
  chmod +x "$tmp"; mv "$tmp" "$drv"
fi
mkdir -p "$out"
tgt=$(mktemp -d) || exit 2
export NARROW_SA_OUT="$out" RUSTC_WORKSPACE_WRAPPER="$drv" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow -Coverflow-checks=on -Cdebug-assertions=off"
( cd "$repo" && cargo +nightly check --workspace --lib --offline --locked --target-dir "$tgt" ) >"$out/log" 2>&1
rc=$?
rm -rf "$tgt"
[ $rc = 0 ] && [ -s "$out/narrow.json" ] && [ -s "$out/narrow_ffi.json" ] || { tail -40 "$out/log" >&2; exit 2; }
