#!/bin/bash
# usage: check.sh PROPERTY | check.sh replay FILE
# Builds the simulator against /repo's working tree and runs one check.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod VERIF_ROOT=$ROOT
export VERIF_GO=/usr/local/bin/go1.23
export GOMEMLIMIT=12GiB
OUT=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 3
trap 'rm -rf "$OUT"' EXIT
cd "$ROOT/sim" || exit 3
prop=$1
[ "$prop" = replay ] && prop=$(grep -o '"property": *"C[0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*')
R=github.com/succinctlabs/gnark-plonky2-verifier
overlay=()
case "$prop" in
C07|C14) # scheduling points, simulated locks and seeded map order in a generated copy of the sources
  mkdir "$OUT/instr"
  pkgs=$($VERIF_GO list -deps $R/verifier | grep "^$R/") # all of its own packages, whichever there are
  if $VERIF_GO build -o "$OUT/instrument" ./cmd/instr >"$OUT/build.log" 2>&1 &&
     "$OUT/instrument" "$OUT/instr" $pkgs >"$OUT/build.log" 2>&1 &&
     $VERIF_GO build -overlay "$OUT/instr/overlay.json" -o "$OUT/simcheck" ./cmd/simcheck >"$OUT/build.log" 2>&1; then
    overlay=(-overlay "$OUT/instr/overlay.json")
  else
    tail -5 "$OUT/build.log"
    echo "note: no instrumented copy of this tree; worlds that need the simulated scheduler are skipped"
  fi
  ;;
C09|C10|C11|C12) # the Go os package with a seam for the simulated disk and process
  mkdir "$OUT/os"
  if ! { $VERIF_GO build -o "$OUT/osover" ./cmd/osover && "$OUT/osover" "$OUT/os"; } >"$OUT/build.log" 2>&1; then
    tail -5 "$OUT/build.log"
    echo "check error: no simulated operating system"
    exit 3
  fi
  tags=simos
  if [ "$prop" = C12 ]; then # and the command-line tool as a package
    if ! { $VERIF_GO build -o "$OUT/benchover" ./cmd/benchover && "$OUT/benchover" "$OUT/os"; } >"$OUT/build.log" 2>&1; then
      tail -5 "$OUT/build.log"
      echo "check error: the command-line tool cannot be prepared"
      exit 3
    fi
    tags=simos,simbench
  fi
  overlay=(-tags $tags -overlay "$OUT/os/overlay.json")
  ;;
esac
if ! $VERIF_GO build "${overlay[@]}" -o "$OUT/simcheck" ./cmd/simcheck >"$OUT/build.log" 2>&1; then
  tail -30 "$OUT/build.log"
  echo "check error: the simulator does not build against /repo"
  exit 3
fi
cd "$OUT" || exit 3
export VERIF_STDERR=$OUT/stderr.txt
for try in 1 2; do
  start=$SECONDS
  "$OUT/simcheck" "$@"
  rc=$?
  [ $rc -lt 2 ] || [ $rc -eq 3 ] || [ ! -s "$VERIF_STDERR" ] || grep -m1 -A25 -E '^(panic|fatal error|SIG)' "$VERIF_STDERR"
  # a crash of the simulator is no answer; it may be the libraries' or the machine's fault
  { [ $rc -lt 2 ] || [ $rc -eq 3 ] || [ $((SECONDS - start)) -gt 250 ]; } && break
  [ $try = 1 ] && echo "note: the simulator ended with status $rc; once more"
done
exit $rc
