#!/bin/bash
# every check on a refactored scratch copy of the repository
HERE=$(dirname "$(realpath "$0")")/..
W=$(mktemp -d /tmp/refactor.XXXXXX)
cp -a /repo "$W/repo"
find "$W/repo" -name '*$py.class' -delete
python3 "$HERE/tools/refactor.py" "$W/repo"
"$HERE/tools/run_repo_tests.sh" "$W/repo" | grep -a "ERROR:\|FAIL:\|^Ran"
cd "$HERE"
for p in ${@:-$(python3 -c "
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'])")}; do
  PBT_TREE=$W/repo python3-vt check.py $p > "$W/out" 2>&1 || { echo "$p ALARM"; tail -4 "$W/out"; }
done
rm -rf "$W"
