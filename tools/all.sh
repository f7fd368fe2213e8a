#!/bin/bash
# all.sh [tier] [ids...]: runs checks without rebuilding (binaries and programs as they are), prints exit codes.
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
export TW_VERIF=$PWD
for id in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28}; do
  case $id in C13|C15|C16|C17|C22|C26) b=twnative ;; *) b=twchain ;; esac
  o=$(build/target/release/$b $id $tier 2>&1); rc=$?
  echo "$id rc=$rc $(tail -1 <<< "$o" | cut -c1-200)"
  [ $rc != 0 ] && cut -c1-1500 <<< "$o" | head -20
done
