#!/bin/sh
# Nothing to compile: check that the tools the checks use are there and the specs parse.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
for f in specs/*.tla; do
  (cd specs && java -Djava.io.tmpdir="$W" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" > "$W/out" 2>&1) || { cat "$W/out"; exit 1; }
done
echo setup done
