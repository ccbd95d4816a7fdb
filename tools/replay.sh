#!/bin/bash
# Usage: tools/replay.sh evidence/replays/<file>.json : runs that one case again
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/env.sh"
f="$(realpath "$1")"
tmp="$(mktemp -d /tmp/vmon.XXXXXXXX)"
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness" || exit 3
variant="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["variant"])' "$f")"
case "$variant" in
race*) flags="-race" ;;
asan*) flags="-asan" ;;
checkptr*) flags="-gcflags=github.com/zerosnake0/jzon=-d=checkptr" ;;
*) flags="" ;;
esac
go build $flags -o "$tmp/vmon" . && "$tmp/vmon" -replay "$f"
