#!/bin/bash
# run.sh cNN [options]: rebuild what the check needs from /repo's working tree, and run it.
V=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_DIR=$V
$V/lib/build.sh "$1" || { echo "build failed"; exit 2; }
exec $V/build/obj/bin/"$@"
