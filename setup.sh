#!/bin/bash
# Builds everything the checks use, offline, from the committed files and /repo.
set -e
cd "$(dirname "$0")"
tools/build_sbf.sh mocks
tools/build_sbf.sh main
tools/build_sbf.sh forks
tools/build_host.sh chain
[ -f native/Cargo.toml ] && tools/build_host.sh native
tools/build_cli.sh
tools/build_js.sh
echo "setup done"
