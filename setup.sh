#!/bin/bash
# Nothing is built: parses the specification and makes sure the interpreters are there.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tla=/opt/veriftools/tla
tmp="$(mktemp -d)"
cd "$here/spec"
for m in *.tla; do
    java -Djava.io.tmpdir="$tmp" -cp $tla/tla2tools.jar:$tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$tmp/sany.log" 2>&1 || { cat "$tmp/sany.log"; exit 1; }
done
rm -rf "$tmp"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import sys; assert sys.version_info[:2] >= (3, 8)'
mkdir -p "$here/evidence"
