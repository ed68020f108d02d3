#!/bin/bash
# catch.sh [-a] [ID...]: runs the check of each seeded bug's property (-a: every check) against it.
all=; [ "$1" = -a ] && { all=1; shift; }
here="$(cd "$(dirname "$0")/.." && pwd)"
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$here/seeded"))
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
    git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
    prop=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
    props=$prop; [ -n "$all" ] && props=$("$here/harness/target/release/pgdt-check" | cut -d' ' -f1)
    by=
    for p in $props; do
        out=$("$here/check.sh" "$p" quick 2>/dev/null); rc=$?
        if [ $rc = 1 ]; then by="$by $p"; [ -z "$all" ] && echo "$out" | grep -E '^(case|fails):' | cut -c1-260
        elif [ $rc != 0 ]; then by="$by $p(rc=$rc)"; fi
    done
    echo "$id [$prop]:${by:- MISSED}"
    git -C /repo checkout -q -- .
done
