#!/bin/bash
# runs the check of each planted bug on a scratch copy of /repo with the bug applied: tools/seeded.sh [ID...]
cd "$(dirname "$0")/.." || exit 2
for d in ${@:-$(ls seeded)}; do
    work=$(mktemp -d /tmp/sumpf-seeded-XXXXXX)
    cp -a /repo "$work/repo"
    git -C "$work/repo" apply "$PWD/seeded/$d/patch.diff" || echo "$d: does not apply"
    p=$(python3 -c "import json; print(json.load(open('seeded/$d/meta.json'))['property'])")
    SUMPF_REPO="$work/repo" ./check "$p" > "$work/log" 2>&1
    echo "$d: exit $? $(grep -c '^VIOLATION' "$work/log") violations"
    rm -rf "${work:?}"
done
