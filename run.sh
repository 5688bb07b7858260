#!/bin/bash
# run.sh check ID [filter] | replay FILE | setup   (tier from VERIF_TIER)
cd "$(dirname "$0")"
export VERIF_DIR=$PWD
. tools/prepare.sh
mkdir -p build
bin=build/bin/vfz
# C25 controls the order of map iterations: it has a runtime of its own
# C24 tests another module
case "$2" in
C25|*C25-*) export MAPRT=1; bin=build/bin/vfzmap ;;
C24|*C24-*) export MBT=1; bin=build/bin/vfzmbt ;;
esac
exec 9>build/.lock
flock 9
bash -ec ". tools/prepare.sh; prepare" >build/build.log 2>&1 || { cat build/build.log; echo "build failed"; exit 2; }
flock -u 9
exec 9>&-
tier=${VERIF_TIER:-quick}
case "$1" in
setup) exit 0 ;;
check) exec $bin check "$2" "$tier" ${3:+"$3"} ;;
replay) exec $bin replay "$2" ;;
one) exec $bin one "$2" "$tier" "$3" ;;
list) exec $bin list "$2" "$tier" ;;
esac
echo "usage: run.sh check ID | replay FILE | setup" >&2
exit 2
