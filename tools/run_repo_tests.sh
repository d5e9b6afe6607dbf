#!/bin/bash
# Runs the complete test suite of /repo (or of the tree given as argument)
# against the stand-ins, in a scratch copy.
SRC=$(realpath "${1:-/repo}")
HERE=$(dirname "$(realpath "$0")")/..
D=$(mktemp -d /tmp/repotests.XXXXXX)
cp -a "$SRC/openquake" "$D/openquake"
find "$D" -name '*$py.class' -delete
cd "$D"
JYTHONPATH=/opt/jylib:$D:$(realpath "$HERE/standins") LC_ALL=C.UTF-8 \
  jython -B -Dpython.cachedir.skip=true /opt/vp/run_nose.py -v --with-doctest openquake 2>&1
rc=$?
rm -rf "$D"
exit $rc
