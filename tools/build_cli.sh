#!/bin/bash
# build_cli.sh: builds the command-line tool from /repo's working tree, with the
# settings of /opt/vp/build.sh so that its build products are reused, and puts it
# at build/cli/spl-token-wrap. Keyed by a hash of the sources, like build_sbf.sh.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/sbpf/env.sh
mkdir -p $V/build/log $V/build/cli
exec 7> $V/build/cli.lock
flock 7
h=$(cd /repo && { cat Cargo.toml Cargo.lock; find program clients/cli -path program/tests -prune -o -path clients/cli/tests -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print | sort | while read f; do echo "== $f"; cat "$f"; done; } | sha256sum | cut -c1-24)
stamp=$V/build/cli/stamp
if [ "$(cat $stamp 2>/dev/null)" = "$h" ]; then exit 0; fi
rm -f $stamp /repo/target/debug/.fingerprint/spl-token-wrap-*/*
( cd /repo && cargo test --workspace --no-run --offline --locked --test runner ) > $V/build/log/cli.log 2>&1 || {
  echo "build of the command-line tool failed:" >&2; grep -E '^error' -A12 $V/build/log/cli.log | head -60 >&2; exit 3; }
cp /repo/target/debug/spl-token-wrap $V/build/cli/spl-token-wrap.tmp
mv $V/build/cli/spl-token-wrap.tmp $V/build/cli/spl-token-wrap
echo $h > $stamp
