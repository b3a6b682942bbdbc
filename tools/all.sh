#!/bin/bash
# runs all registered checks (usage: tools/all.sh [quick|thorough])
cd "$(dirname "$0")/.." || exit 2
for p in $(python3 -c "import json; print(*(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do
    ./check "$p" --tier "${1:-quick}" | grep -v ^KNOWN | tail -3
done
