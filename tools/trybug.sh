#!/bin/bash
# trybug.sh ID...: for each planted bug, on a scratch copy of /repo: the demo
# passes without and fails with the patch, the stable tests pass with it; then
# the check of its property is run on the patched copy (4 bugs at a time)
one() {
  id=$1
  d=/verif/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/bug.XXXXXX)
  cp -a /repo $w/repo; mkdir $w/demo; cp -a $d/. $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
  (cd $w/repo && timeout 300 bash $w/demo/demo.sh >$w/out0 2>&1); clean=$?
  git -C $w/repo apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$w"; return; }
  (cd $w/repo && timeout 300 bash $w/demo/demo.sh >$w/out1 2>&1); bad=$?
  (cd $w/repo; find $w/repo -name '*$py.class' -delete
   JYTHONPATH=/opt/jylib:$w/repo LC_ALL=C.UTF-8 timeout 600 jython -B /opt/vp/run_nose.py -v --with-doctest --with-xunit --xunit-file=$w/nose.xml; python3 /opt/vp/results.py $w/t.json junit:$w/nose.xml) >/dev/null 2>&1
  tests=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$w/t.json'))
s=set(b.get('stable') or b.get('stable_passed') or b.get('tests') or b.get('passed') or [])
print('missing:%d of %d' % (len(s-set(o['passed'])), len(s)))")
  cd /verif; PBT_TREE=$w/repo python3-vt check.py $prop $TRY_ARGS >$w/chk 2>&1; rc=$?
  { echo "$id: property=$prop demo clean=$clean patched=$bad tests $tests check rc=$rc $(grep -c ^VIOLATION $w/chk)"
  [ $clean = 0 ] || tail -5 $w/out0
  [ $bad != 0 ] || tail -5 $w/out1
  [ $rc = 1 ] || tail -3 $w/chk; }
  rm -rf "$w"
}
export -f one
printf '%s\n' "$@" | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'
