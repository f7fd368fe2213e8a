#!/bin/bash
# Bundles the TypeScript client in /repo with the driver and the stand-ins for its packages,
# and evaluates the source of the interface description.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
J=$V/build/js
mkdir -p $J $V/build/log
exec 8> $V/build/js.lock
flock 8
a="--alias:token-wrap-client=/repo/clients/js/src/index.ts"
for p in kit=kit program-client-core=core sysvars=sysvars; do a="$a --alias:@solana/${p%=*}=$V/js/${p#*=}.cjs"; done
for p in token=spl-token token-2022=token-2022 system=system; do a="$a --alias:@solana-program/${p%=*}=$V/js/${p#*=}.cjs"; done
b="--alias:codama=$V/js/codama.cjs --alias:fs=$V/js/fs.cjs --alias:node:fs=$V/js/fs.cjs"
e="/opt/veriftools/node/node_modules/.bin/esbuild --bundle --platform=node --format=cjs --tsconfig-raw={} $a"
$e $V/js/driver.cjs --outfile=$J/driver.cjs > $V/build/log/js.log 2>&1 || {
  echo "bundling the JavaScript client failed:" >&2; head -40 $V/build/log/js.log >&2; exit 3; }
# without it the description itself is still judged
{ $e $b /repo/program/idl.ts --outfile=$J/idl.cjs && node $J/idl.cjs > $J/idl.json; } 2> $V/build/log/idl.log || {
  echo "note: the source of the description cannot be evaluated here"; rm -f $J/idl.json; }
