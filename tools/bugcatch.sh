#!/bin/bash
# bugcatch.sh BUG [CHECK...]: runs checks (default: the one of its property)
# on a planted bug, in scratch copies of /repo and /verif, so that neither is
# touched. Copies are kept in /tmp/bc and refreshed on each call.
B=$1; shift
C=("$@")
[ ${#C[@]} -eq 0 ] && C=($(python3 -c "import json;print(json.load(open('/verif/seeded/$B/meta.json'))['property'])"))
S=${BC:-/tmp/bc}
mkdir -p "$S"
exec 9> "$S/lock"; flock 9
rsync -a --delete --exclude=bin /repo/ "$S/repo/"
rsync -a --delete --exclude=.git --exclude=seeded --exclude=evidence --exclude=bin --exclude=__pycache__ /verif/ "$S/verif/"
mkdir -p "$S/verif/evidence" "$S/verif/bin"
sed -i "s#/repo#$S/repo#g" "$S"/verif/build.sh "$S"/verif/check.sh "$S"/verif/harness/go.mod
git -C "$S/repo" checkout -q -- .
P=/verif/seeded/$B/patch.diff; [ -f "$B" ] && P=$B && B=$(basename $B)
git -C "$S/repo" apply $P || exit 2
cd "$S/verif"
for c in "${C[@]}"; do
  t=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick bash check.sh $c quick > /tmp/catch-$B-$c.out 2>&1; rc=$?
  echo "$B $c exit=$rc $(( $(date +%s) - t ))s $(grep -m1 VIOLATION /tmp/catch-$B-$c.out)"
done
