#!/bin/bash
# usage: catch.sh ID... : applies each planted bug to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.." || exit 2
for b in "$@"; do
	p=${P:-$(jq -r .property seeded/$b/meta.json)}
	[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 2; }
	git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
	for q in $p; do
	s=$(date +%s)
	out=$(bash run.sh $q quick 2>&1); rc=$?
	echo "$b $q rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION <<<"$out")"
	if [ -z "${P:-}" ]; then
		grep -v "^$b	" tools/catch.tsv >/tmp/catch.tsv.$$ 2>/dev/null
		printf '%s\t%s\t%s\n' $b "$([ $rc = 1 ] && grep -q "^VIOLATION property=$q " <<<"$out" && echo caught || echo missed)" $(( $(date +%s) - s )) >>/tmp/catch.tsv.$$
		sort /tmp/catch.tsv.$$ >tools/catch.tsv; rm -f /tmp/catch.tsv.$$
	fi
	[ $rc = 2 ] && tail -5 <<<"$out"
	done
	git -C /repo checkout -- .
done
