#!/bin/bash
# Usage: mkmod.sh REPO OUTDIR - writes OUTDIR/go.mod and go.sum for building the harness against REPO.
set -e
repo=$1; out=$2
mkdir -p "$out"
{
  echo "module github.com/hyperonym/ratus/verif"
  echo "go 1.25"
  sed -n '/^require (/,/^)/p' "$repo/go.mod"
  echo "require github.com/anishathalye/porcupine v1.3.1"
  echo "require github.com/hyperonym/ratus v0.0.0"
  echo "replace github.com/hyperonym/ratus => $repo"
} > "$out/go.mod"
cp "$repo/go.sum" "$out/go.sum"
# The driver is compiled from a copy that honours topology.DefaultDialer, so
# that the emulated deployment can be reached without a network.
ver=$(sed -n 's/^[[:space:]]*go.mongodb.org\/mongo-driver \(v[^ ]*\).*/\1/p' "$repo/go.mod" | head -1)
src=${GOMODCACHE:-/root/go/pkg/mod}/go.mongodb.org/mongo-driver@$ver
if [ -n "$ver" ] && [ -d "$src" ]; then
  if [ ! -f "$out/driver-$ver/.done" ]; then
    mkdir -p "$out/driver-$ver"
    (cd "$src" && find . -name '*.go' ! -name '*_test.go' ! -path './examples/*' ! -path './benchmark/*' ! -path '*/integration/*' -print0; cd "$src" && find . -name go.mod -maxdepth 1 -print0) | (cd "$src" && tar --null -T - -cf -) | tar -C "$out/driver-$ver" -xf -
    chmod -R u+w "$out/driver-$ver"
    sed -i 's/cfg.dialer = &net.Dialer{}/cfg.dialer = DefaultDialer/' "$out/driver-$ver/x/mongo/driver/topology/connection_options.go"
    touch "$out/driver-$ver/.done"
  fi
  echo "replace go.mongodb.org/mongo-driver => $out/driver-$ver" >> "$out/go.mod"
fi
