#!/bin/bash
# check.sh <property> [quick|thorough]: builds the explorer against /repo's working tree and
# runs the exploration of one property. Exit 0: held. Exit 1: VIOLATION line. Other: error.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. ./env.sh
. ./ws.sh
ID=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
case $ID in
  C0[1-9]|C1[0-4]|C18|C19) CRATE=binprot ;;
  C15) CRATE=versioned ;;
  C16) CRATE=autofrom ;;
  C2[0-3]) CRATE=merkle ;;
  C24|C25) CRATE=consensus ;;
  C2[6-9]|C3[0-5]|C41) CRATE=base ;;
  C36|C37) CRATE=ledger ;;
  C38|C39|C42|C43) CRATE=network ;;
  C40) CRATE=secrets ;;
  C44|C45|C46) CRATE=apps ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
rm -f "$VERIF_ROOT/evidence/$ID.json" "$VERIF_ROOT/evidence/replay/$ID.txt"
mkdir -p "$VERIF_ROOT/evidence/replay" "$VERIF_ROOT/target"
LOG=$VERIF_ROOT/target/build-$ID.log
build() {
  case $ID in C18|C19) build_programs || return 1 ;; esac
  (cd "mc/$CRATE" && cargo build --release --offline -q)
}
violation() { # a violation found outside the explorer: text
  REPLAY=$VERIF_ROOT/evidence/replay/$ID.txt
  echo "$1 Run $VERIF_ROOT/check.sh $ID $VERIF_TIER again to replay it." >"$REPLAY"
  [ -n "$2" ] && cat "$2" >>"$REPLAY"
  cat >"$VERIF_ROOT/evidence/$ID.json" <<JSON
{"property": "$ID", "tier": "$VERIF_TIER", "seed": $VERIF_SEED, "level": "model_checking",
 "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["$1"], "exhaustive": false},
 "violations": 1, "wall_s": $(( $(date +%s) - START ))}
JSON
  echo "$1"
  echo "VIOLATION property=$ID replay=$REPLAY"
  exit 1
}
START=$(date +%s)
if ! build >"$LOG" 2>&1; then
  # declarations the derive has to support: the expansion is what does not compile, if the
  # crates of the repository do
  if [ $CRATE = autofrom ] && grep -q -e '--> src/programs.rs' "$LOG" && ! grep -q -e '--> /repo/' "$LOG"; then
    head -20 "$LOG"
    violation "Conversions derived for a declaration of mc/autofrom/src/programs.rs do not compile." "$LOG"
  fi
  tail -40 "$LOG" >&2
  echo "$ID: the explorer does not build against /repo" >&2
  exit 3
fi
"$CARGO_TARGET_DIR/release/mc-$CRATE" "$ID" 2>"$LOG.err"
RC=$?
cat "$LOG.err" >&2
case $RC in
  0|1) exit $RC ;;
  132|134|135|136|139)
    # the explorer calls the implementation in its own process: a stack overflow or an abort there ends it
    violation "The implementation ended the process it runs in (exit status $RC: stack overflow or abort)." ;;
  101)
    # it is the same program on every run: something of the implementation that it builds on failed
    violation "The exploration cannot go on: $(tr -d '"\\' <"$LOG.err" | tr '\n' ' ' | head -c 400)." "$LOG.err" ;;
  *) echo "$ID: the explorer ended with status $RC" >&2; exit $RC ;;
esac
