#!/bin/bash
# build_sbf.sh main|forks|mocks
# Builds on-chain programs for Mollusk into /verif/build/sbf and prints nothing
# on success. `main` and `forks` come from /repo's current working tree: their
# outputs are keyed by a hash of its sources, so an unchanged tree is not rebuilt
# and a changed one always is, whatever the file times say.
set -e
here=/opt/vp/sbpf
V=$(cd "$(dirname "$0")/.." && pwd)
what=$1
B=$V/build
mkdir -p $B/sbf $B/log
export RUSTUP_TOOLCHAIN=nightly RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH="/root/.cargo/bin:$PATH" HOME=/root
export CARGO_TARGET_DIR=$B/sbf-target CARGO_INCREMENTAL=0
export __CARGO_TESTS_ONLY_SRC_ROOT=$here/rustsrc/library RUSTC_BOOTSTRAP_SYNTHETIC_TARGET=1
export CARGO_PROFILE_RELEASE_OPT_LEVEL=s CARGO_PROFILE_RELEASE_PANIC=abort
export RUSTFLAGS="-C target-cpu=v2 -C passes=lower-atomic -C linker=$V/tools/sbpf-linker"
unset LD_LIBRARY_PATH SBF_OUT_DIR CARGO_PROFILE_DEV_DEBUG
common=(--release --offline --lib --target $here/sbpf-solana.json
  -Zjson-target-spec -Zbuild-std=std,panic_abort -Zbuild-std-features=)

if [ "$what" = mocks ]; then
  h=$(cd $V/sbf/mocks && find . -name '*.rs' -o -name '*.toml' -o -name '*.lock' | sort | xargs cat | sha256sum | cut -c1-24)
else
  h=$(cd /repo && { cat Cargo.toml Cargo.lock; find program -path program/tests -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print | sort | while read f; do echo "== $f"; cat "$f"; done; [ $what = forks ] && cat $V/sbf/forks/*/src/lib.rs; true; } | sha256sum | cut -c1-24)
fi
stamp=$B/sbf/$what.stamp
exec 9> $B/sbf.lock
flock 9
if [ "$(cat $stamp 2>/dev/null)" = "$h" ]; then exit 0; fi
rm -f $stamp
# Forget what cargo believes is fresh about the workspace's own crates.
rm -f $CARGO_TARGET_DIR/sbpf-solana/release/.fingerprint/spl-token-wrap-*/* \
       $CARGO_TARGET_DIR/sbpf-solana/release/.fingerprint/tw-*/*
build() { # package dir extra-flags...
  local p=$1 d=$2; shift 2
  local n=${p//-/_}
  ( cd $d && TW_SBF_LINK=$n cargo rustc "${common[@]}" "$@" --crate-type cdylib -p $p ) > $B/log/sbf-$n.log 2>&1 || {
    echo "build of $p for the Solana VM failed:" >&2; tail -40 $B/log/sbf-$n.log | cut -c1-600 >&2; exit 3; }
  cp $CARGO_TARGET_DIR/sbpf-solana/release/lib$n.so $B/sbf/$n.so.tmp
  [ -s $B/sbf/$n.so.tmp ] || { echo "$n.so is empty" >&2; exit 3; }
  mv $B/sbf/$n.so.tmp $B/sbf/$n.so
}
case $what in
  main) build spl-token-wrap /repo --locked ;;
  forks)
    cp -n /repo/Cargo.lock $V/sbf/forks/Cargo.lock 2>/dev/null || true
    build tw-fork-compliance $V/sbf/forks
    build tw-fork-noext $V/sbf/forks ;;
  mocks)
    cp -n /repo/Cargo.lock $V/sbf/mocks/Cargo.lock 2>/dev/null || true
    build tw-mock-meta $V/sbf/mocks
    build tw-mock-hook $V/sbf/mocks
    build tw-mock-proxy $V/sbf/mocks ;;
  *) echo "what?" >&2; exit 3;;
esac
echo $h > $stamp
