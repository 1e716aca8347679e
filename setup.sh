#!/bin/bash
# Warms the build cache with everything the checks need; nothing of it has to survive.
cd "$(dirname "$0")/sim" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
G=/usr/local/bin/go1.23
$G build ./... && $G vet ./lab >/dev/null 2>&1
T=$(mktemp -d /tmp/simsetup.XXXXXX) || exit 0
trap 'rm -rf "$T"' EXIT
mkdir "$T/os" && $G build -o "$T/osover" ./cmd/osover && "$T/osover" "$T/os" &&
  $G build -tags simos -overlay "$T/os/overlay.json" -o "$T/simcheck" ./cmd/simcheck &&
  $G build -o "$T/benchover" ./cmd/benchover && VERIF_GO=$G "$T/benchover" "$T/os" &&
  $G build -tags simos,simbench -overlay "$T/os/overlay.json" -o "$T/simcheck" ./cmd/simcheck
exit 0
