#!/bin/bash
# tryseeds.sh [ID...]: applies each planted change to a scratch copy of /repo and runs its property's check.
. /verif/env.sh
cd /verif/seeded
ids="$*"; [ -z "$ids" ] && ids=$(ls)
one() {
 id=$1; d=$(mktemp -d /tmp/tsXXXX); cp -a /repo/. $d/; rm -rf $d/.git
 (cd $d && patch -p1 -s < /verif/seeded/$id/patch.diff) || echo "$id: patch failed"
 p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' /verif/seeded/$id/meta.json)
 v=$(mktemp -d /tmp/tsvXXXX); mkdir $v/evidence; cp /verif/known_findings.txt $v/
 s=$(date +%s)
 out=$(timeout 900 /verif/bin/notifysa -repo $d -verif $v -prop $p 2>&1); rc=$?
 e=$(date +%s)
 if [ $rc = 1 ]; then echo "$id [$p] caught ($((e-s))s): $(echo "$out" | grep -v KNOWN | grep -v 'UNDECIDED' | head -2 | tr '\n' ' ' | cut -c1-260)"; else echo "$id [$p] MISSED rc=$rc ($((e-s))s): $(echo "$out" | grep -v KNOWN| tail -2 | cut -c1-300)"; fi
 find $d $v -delete
}
export -f one
echo $ids | tr ' ' '\n' | xargs -P 4 -I{} bash -c 'one {}'
