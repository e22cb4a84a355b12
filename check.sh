#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator against /repo's
# working tree and explores one property. Exit 0: held; 1: VIOLATION; 2: error.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
case $prop in
  C13|C14|C15|C16|C17|C18) bin=ffi_sim ;;
  *) bin=core_sim ;;
esac
"$here/build.sh" "$bin" || { echo "build failed"; exit 2; }
exec "$here/sim/target/debug/$bin" --property "$prop" --tier "$tier" --root "$here"
