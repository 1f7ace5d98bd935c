#!/bin/bash
# build.sh [TARGET...]: mirror /repo's sources (by content, so that only real changes get new times) and build.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
R=${FDB_REPO:-/repo}
B=${FDB_VERIF_BUILD:-$V/build}
SITE=/opt/vp/venv/lib/python3.12/site-packages
export CC=gcc CXX=g++
mkdir -p $B/mirror/src $B/obj
exec 9>$B/.lock; flock 9
rsync -rlc --delete $R/src/fdb5 $R/src/dummy_daos $R/src/chunked_data_view $B/mirror/src/
rsync -rlc --delete $R/cmake $R/VERSION $B/mirror/
if [ ! -f $B/obj/build.ninja ]; then
  cmake -S $V/lib -B $B/obj -G Ninja -DMIRROR=$B/mirror -DVERIF=$V -DSITE=$SITE > $B/cmake.log 2>&1 || { cat $B/cmake.log; rm -f $B/obj/build.ninja; exit 1; }
fi
ninja -C $B/obj "$@" > $B/ninja.log 2>&1 || { tail -60 $B/ninja.log; exit 2; }
