#!/bin/bash
# Nothing to build: check that the tools the checks need are there and every specification parses.
cd "$(dirname "$0")/.." || exit 1
command -v java >/dev/null || { echo "java missing"; exit 1; }
[ -x /opt/venv/bin/python ] || { echo "/opt/venv/bin/python missing"; exit 1; }
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd spec || exit 1
fail=0
for m in *.tla; do
    java -Djava.io.tmpdir="$tmp" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "$m" >"$tmp/out" 2>&1 || { cat "$tmp/out"; fail=1; }
done
exit $fail
