#!/bin/bash
# catch.sh [-a|-g] [ID...]   applies each planted bug to /repo, runs its property's check (with -a: every
# check; with -g: its coverage-guided search only), undoes it.  REPO names another copy of /repo.  Prints one line per bug.
here=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
[ "$1" = -g ] && { export ELV_GUIDED_ONLY=1; shift; }
all=; [ "$1" = -a ] && { all=1; shift; }
ids=("$@"); [ $# = 0 ] && ids=($(ls "$here/seeded"))
for b in "${ids[@]}"; do
    d=$here/seeded/$b
    p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
    git -C "$REPO" apply "$d/patch.diff" || { echo "$b DOES-NOT-APPLY"; continue; }
    [ -n "$all" ] && ps=$(seq -f 'C%02g' 28) || ps=$p
    line="$b $p:"
    for q in $ps; do
        t0=$(date +%s)
        o=$(cd "$here" && ./check.sh "$q" 2>/tmp/catch.err); rc=$?
        line="$line $q=$rc($(( $(date +%s) - t0 ))s)"
        [ "$q" = "$p" ] && { [ $rc = 1 ] && line="$line CAUGHT" || line="$line MISSED"; }
        [ "$q" = "$p" ] && line="$line $(echo "$o" | grep "^$q [a-z]" | tail -1 | cut -c1-160)"
    done
    git -C "$REPO" checkout -q -- .
    echo "$line"
done
