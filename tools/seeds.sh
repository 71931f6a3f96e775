#!/bin/bash
# Runs the quick check of each seeded bug's property against /repo with the
# bug applied. usage: seeds.sh [-p PROPERTY] [id...]
cd "$(dirname "$0")/.." || exit 3
[ "$1" = -p ] && { prop=$2; shift 2; }
[ $# -gt 0 ] || set -- $(ls seeded)
for i; do
	p=${prop:-$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")}
	git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
	s=$(date +%s); out=$(./check.sh "$p" quick 2>&1); rc=$?; e=$(date +%s)
	git -C /repo checkout -q -- .
	echo "$i $p exit=$rc $((e-s))s $(echo "$out" | grep -m1 ^VIOLATION)"
	[ $rc = 1 ] || echo "$out" | tail -5
done
