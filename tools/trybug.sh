#!/bin/bash
# trybug.sh <seeded id> [property]: applies a planted bug to /repo, runs the quick check, undoes it.
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=$(mktemp -d /tmp/trybug.XXXXXX); cp -a /repo/. $w; git -C $w apply $d/patch.diff || exit 3
s=$(date +%s); VERIF_REPO=$w timeout 900 /verif/bin/vrun -property $p -tier quick -verif /verif -repo $w ${@:3} > /tmp/out/bug-$1.log 2>&1; rc=$?
echo "$1 $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/out/bug-$1.log) violations $(grep -cE 'UNDECIDED|UNCONFIRMED|REDUCED' /tmp/out/bug-$1.log) notes"
rm -rf "$w"
