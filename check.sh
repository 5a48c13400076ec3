#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker from /repo's working tree
# and decides one property. Exit 0: held on everything explored; 1: VIOLATION;
# anything else: the check could not do its work.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
. ./env.sh
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
case $ID in
  L*) BIN=loc ;;
  R*) BIN=race ;;
  U06|U07|U08|U09) mkdir -p evidence/replay
     exec /opt/veriftools/pyvenv/bin/python -B harness/scripts/scripts_check.py $ID $TIER /repo ;;
  H*|B*|U*) BIN=sys ;;
  *) BIN=zk ;;
esac
bash ./build.sh $BIN || { echo "BUILD FAILED"; exit 2; }
mkdir -p evidence/replay
ERR=evidence/replay/$ID.stderr
"$VERIF_ROOT/bin/$BIN.test" "$ID" "$TIER" 2> "$ERR"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  head -c 6000 "$ERR" >&2
  # A crash inside the code under check, in a goroutine the checker cannot
  # recover in (gnark's solver runs hints in its own), is an observation too.
  if awk '/^(panic|fatal error):/ {p=1} p && /^goroutine / {g++} p && g==2 {exit} p {print}' "$ERR" | grep -q 'tumberger/zk-Location/'; then
    echo "the code under check crashed the process: $(grep -m1 -E '^(panic|fatal error):' "$ERR")"
    echo "VIOLATION property=$ID replay=$VERIF_ROOT/$ERR"
    exit 1
  fi
fi
exit $rc
