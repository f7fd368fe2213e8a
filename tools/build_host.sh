#!/bin/bash
# build_host.sh chain|native: builds a harness crate with the host toolchain.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/sbpf/env.sh
unset SBF_OUT_DIR CARGO_PROFILE_DEV_DEBUG
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$V/build/target CARGO_NET_OFFLINE=true
mkdir -p $V/build/log
exec 8> $V/build/host.lock
flock 8
if [ $1 = native ]; then
  # links /repo's crate: forget it whenever its sources differ from the last build
  h=$(cd /repo && { cat Cargo.toml Cargo.lock; find program -path program/tests -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print | sort | while read f; do echo "== $f"; cat "$f"; done; } | sha256sum | cut -c1-24)
  if [ "$(cat $V/build/native.stamp 2>/dev/null)" != "$h" ]; then
    rm -f $V/build/native.stamp $V/build/target/release/.fingerprint/spl-token-wrap-*/* $V/build/target/release/.fingerprint/twnative-*/*
  fi
fi
( cd $V/$1 && cargo build --offline --release ) > $V/build/log/host-$1.log 2>&1 || {
  echo "build of the $1 harness failed:" >&2; grep -E '^(error|warning: unused)' -A12 $V/build/log/host-$1.log | head -60 >&2; exit 3; }
[ $1 = native ] && echo $h > $V/build/native.stamp
exit 0
