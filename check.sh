#!/bin/bash
# check.sh <property> [quick|thorough|replay <file>]
# Rebuilds what the property's check needs from /repo's working tree and runs it.
# exit 0: held; 1: VIOLATION line printed; anything else: the check did not run.
cd "$(dirname "$0")"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case $id in
  C13|C15|C16|C17|C22|C26)
    tools/build_host.sh native || exit 3
    bin=build/target/release/twnative ;;
  *) bin=build/target/release/twchain ;;
esac
case $id in C26|C27) tools/build_js.sh || exit 3 ;; esac
if [ $id != C26 ]; then
  tools/build_sbf.sh mocks || exit 3
  tools/build_sbf.sh main || exit 3
fi
case $id in C23|C24|C25) tools/build_cli.sh || exit 3 ;; esac
if [ $id = C21 ]; then tools/build_sbf.sh forks || exit 3; fi
tools/build_host.sh chain || exit 3
export TW_VERIF=$PWD
[ $tier = replay ] && exec $bin replay "$3"
exec $bin $id $tier
