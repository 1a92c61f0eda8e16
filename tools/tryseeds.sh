#!/bin/bash
# tryseeds.sh [ID...]: runs each planted bug's own property check against it (in a scratch copy).
here=$(cd "$(dirname "$0")/.." && pwd)
ids="$*"; [ -n "$ids" ] || ids=$(ls "$here/seeded")
(cd "$here/checker" && unset GOFLAGS && go build -o /tmp/checker .) || exit 2
run() {
	id=$1; w=$(mktemp -d /tmp/seedw.XXXX); cp -a /repo "$w/repo"; ln -s "$here/refs" "$here/KNOWN_FINDINGS.txt" "$w/"
	p=$(python3 -c "import json,sys;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
	git -C "$w/repo" apply "$here/seeded/$id/patch.diff" || echo "$id NOAPPLY"
	out=$(VERIF_DIR=$w timeout 300 /tmp/checker -repo "$w/repo" $p 2>&1); rc=$?
	if [ $rc = 1 ] && echo "$out" | grep -q "VIOLATION property=$p"; then echo "$id CAUGHT $(echo "$out" | grep -v VIOLATION | head -1 | cut -c1-150)"; else echo "$id MISSED rc=$rc $(echo "$out" | grep -i undecided | head -1| cut -c1-300)"; fi
	rm -rf "$w"
}
export -f run; export here
echo $ids | tr ' ' '\n' | xargs -P 6 -I{} bash -c 'run {}' | sort
