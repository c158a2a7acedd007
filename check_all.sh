#!/bin/bash
# usage: check_all.sh [quick|thorough]   runs every registered check, prints the failing ones
cd "$(dirname "$0")" || exit 2
bad=0
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  ./check.sh $p ${1:-quick} || { echo "FAILED $p"; bad=1; }
done
exit $bad
