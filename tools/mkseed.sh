#!/bin/bash
# mkseed.sh ID PROPERTY DEMO.cc "needs" "what it breaks": make seeded/ID from /repo's working-tree diff, then undo the diff
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
if [ -n "$(git -C /repo diff)" ]; then git -C /repo diff > $D/patch.diff; fi
cp /verif/tools/demo/demo.h /verif/tools/demo/demo.sh $D/
[ "$3" -ef $D/demo.cc ] || cp $3 $D/demo.cc
P="$2" N="$4" W="$5" python3 - > $D/meta.json <<'P'
import os,json
print(json.dumps({"property":os.environ["P"],"needs":os.environ["N"],"what_it_breaks":os.environ["W"]},indent=1))
P
git -C /repo checkout -- .
