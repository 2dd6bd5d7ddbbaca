#!/bin/bash
# Determinism: the same seeds in separate processes, with other hash seeds and
# several processes at a time, must give identical event logs.
# usage: selftest.sh [SEEDS_PER_PROPERTY]
n=${1:-20}
cd "$(dirname "$0")" || exit 2
d=$(mktemp -d)
for i in 0 1 2 3; do
    DST_HASHSEED=$((i * 977)) python3 run.py selftest "$n" > "$d/$i" 2>&1 &
done
wait
rc=0
for i in 1 2 3; do
    cmp -s "$d/0" "$d/$i" || { echo "differs: run $i"; diff "$d/0" "$d/$i"; rc=1; }
done
cat "$d/0"
rm -r "$d"
[ $rc = 0 ] && echo deterministic
exit $rc
