#!/bin/bash
# try_seeded.sh [ID...]: applies each planted change to a copy of /repo and runs its property's quick check from a
# copy of /verif (PROPS="C01 C02" runs other checks). The copies are in a scratch directory, removed at the end.
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
w=$(mktemp -d /tmp/try.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" && mkdir "$w/verif" && cp -a "$here"/{check.sh,sim,tools,known_findings.txt} "$w/verif/" || exit 2
sed -i "s#path = \"/repo\"#path = \"$w/repo\"#" "$w/verif/sim/Cargo.toml"
for id in "$@"; do
    p=${PROPS:-$(python3 -c "import json,sys;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
    git -C "$w/repo" apply "$here/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    for q in $p; do
        s=$(date +%s)
        bash "$w/verif/check.sh" $q >"$w/out" 2>&1; c=$?
        echo "$id $q exit=$c $(($(date +%s) - s))s $(grep -m1 -E '^run ' "$w/out" | cut -c1-150)"
        [ $c = 2 ] && grep -m3 ERROR "$w/out"
    done
    git -C "$w/repo" checkout -q -- .
    git -C "$w/repo" clean -qfd -e target
done
