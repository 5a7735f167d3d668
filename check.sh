#!/bin/bash
# check.sh PROPERTY quick|thorough — decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
prop=$1
tier=${2:-quick}
seed=${VERIF_SEED:-1}
case $tier in
quick) limit=300 ;;
*) limit=780 ;;
esac
case $prop in
C2[4-8])
	exec python3-vt rt/run.py "$prop" "$tier" "$seed"
	;;
esac
if [ ! -x bin/gosym ]; then
	./build.sh >/dev/null 2>bin.err || { cat bin.err; exit 2; }
	rm -f bin.err
fi
exec bin/gosym -prop "$prop" -tier "$tier" -time "$limit" -seed "$seed"
