#!/bin/bash
# tools/demo.sh <id>: runs the demonstration of a planted bug on copies of /repo without and with the bug
V="$(cd "$(dirname "$0")/.." && pwd)"; D="$V/seeded/$1"; S=$(mktemp -d /tmp/try.XXXX); trap 'rm -rf "$S"' EXIT
mkdir "$S/d"; cp "$D"/* "$S/d"; rm -f "$S"/d/*.diff "$S/d/meta.json"
mkdir "$S/r"; (cd /repo && git ls-files -z | xargs -0 cp --parents -t "$S/r"; cp Cargo.lock "$S/r" 2>/dev/null)
. /opt/vp/env.sh
(cd "$S/r" && timeout 300 bash "$S/d/demo.sh" >"$S/o" 2>&1); echo "$1 clean rc=$? $(tail -1 "$S/o" | cut -c1-200)"
(cd "$S/r" && patch -s -p1 <"$D/patch.diff" && timeout 300 bash "$S/d/demo.sh" >"$S/o" 2>&1); echo "$1 patched rc=$? $(tail -1 "$S/o" | cut -c1-200)"
