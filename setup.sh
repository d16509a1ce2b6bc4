#!/bin/sh
# offline sanity check of the toolchain: the tool builds and the specification parses
set -e
cd "$(dirname "$0")"
python3 -c 'import yaml'
d=$(mktemp -d)
(cd "${OCT_REPO:-/repo}" && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go build -o "$d/oct" .)
mkdir -p evidence out
cd spec
for m in Oct*.tla MC_*.tla; do
  [ -f "$m" ] || continue
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$d/sany" 2>&1 || { cat "$d/sany"; exit 1; }
done
rm -rf "$d"
