#!/bin/bash
# Build and run demo.cc against the library built from this tree. Exit 0: the property holds; otherwise not.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
. /opt/vp/env.sh
T=$(mktemp -d /tmp/fdbdemo.XXXXXX)
trap 'rm -rf "$T"' EXIT
INC="-I$REPO/src -I$REPO/_build/src -I$SITE/eckitlib/include -I$SITE/metkitlib/include -I$SITE/eccodeslib/include"
L="-L$REPO/_build/lib -L$SITE/eckitlib/lib64 -L$SITE/metkitlib/lib64 -L$SITE/eccodeslib/lib64"
$CXX -std=c++17 -O1 -w -rdynamic $INC "$HERE/demo.cc" -o "$T/demo" $L -lfdb5 -lmetkit -leckit_mpi -leckit_option -leckit -ldl -lpthread \
  -Wl,-rpath,$REPO/_build/lib -Wl,-rpath,$SITE/eckitlib/lib64 -Wl,-rpath,$SITE/metkitlib/lib64 -Wl,-rpath,$SITE/eccodeslib/lib64 -Wl,--allow-shlib-undefined || exit 3
export LD_LIBRARY_PATH=$REPO/_build/lib:$WHEEL_LIBS
cd "$T" && timeout 250 "$T/demo" "$T" > "$T/log" 2>&1
RC=$?
tail -5 "$T/log"
exit $RC
