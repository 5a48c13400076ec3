#!/bin/bash
# build.sh [zk|loc|sys|race]...: builds checkers into bin/ from the committed harness
# and /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
ROOT=$PWD
mkdir -p bin
for b in "${@:-zk}"; do
  case $b in
    zk) (cd harness && go build -o "$ROOT/bin/zk.test" ./cmd/zkcheck) || exit 2 ;;
    loc|sys|race)
      # The location circuits live in test files: an overlay makes them, and
      # the functions they call, importable. Nothing is written to /repo.
      OV=$ROOT/bin/loc.overlay.json
      # The util package is also built with recording proof systems.
      mkdir -p bin/util
      rm -f "$ROOT"/bin/util/*.go
      UTIL=
      for f in /repo/util/*.go; do
        case $f in *_test.go) continue ;; esac
        n=$(basename "$f")
        sed -e 's#"github.com/consensys/gnark/backend/\(groth16\|plonk\)"#"verif/harness/fake/\1"#' \
            -e 's#"github.com/consensys/gnark/test/unsafekzg"#"verif/harness/fake/unsafekzg"#' "$f" > "bin/util/$n"
        UTIL="$UTIL,
 \"$ROOT/harness/benchutil/$n\": \"$ROOT/bin/util/$n\""
      done
      cat > "$OV" <<J
{"Replace": {
 "/repo/loc2index64/zz_verif_circuit.go": "/repo/loc2index64/loc2index64_test.go",
 "/repo/loc2index64/zz_verif_export.go": "$ROOT/harness/_overlay/loc64.go",
 "/repo/loc2index32/zz_verif_circuit.go": "/repo/loc2index32/loc2index32_test.go",
 "/repo/loc2index32/zz_verif_export.go": "$ROOT/harness/_overlay/loc32.go"$UTIL
}}
J
      if [ $b = sys ]; then
        # The proximity program, serving its exported functions on demand.
        echo "{\"Replace\": {\"/repo/proximity/zz_verif.go\": \"$ROOT/harness/_overlay/prox.go\"}}" > bin/proximity.overlay.json
        rm -f "$ROOT/bin/proximity" "$ROOT/bin/proximity-served"
        (cd /repo && go build -o "$ROOT/bin/proximity" ./proximity) || exit 2
        # Only U03 needs this one, and says so if it is missing.
        (cd /repo && go build -overlay "$ROOT/bin/proximity.overlay.json" -o "$ROOT/bin/proximity-served" ./proximity)
        # Helpers that are not exported, which may change: U04 leaves them out
        # if this one is missing.
        echo "{\"Replace\": {\"/repo/proximity/zz_verif.go\": \"$ROOT/harness/_overlay/prox_helpers.go\"}}" > bin/proximity-helpers.overlay.json
        rm -f "$ROOT/bin/proximity-helpers"
        (cd /repo && go build -overlay "$ROOT/bin/proximity-helpers.overlay.json" -o "$ROOT/bin/proximity-helpers" ./proximity) || true
      fi
      cmd=syscheck flags=
      [ $b = loc ] && cmd=loccheck
      [ $b = race ] && flags=-race
      (cd harness && go build $flags -overlay "$OV" -o "$ROOT/bin/$b.test" ./cmd/$cmd) || exit 2 ;;
  esac
done
