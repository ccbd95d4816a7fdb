#!/bin/bash
# Usage: check.sh <property>     (VERIF_SEED and VERIF_TIER from the environment)
# Builds the monitors against /repo's current working tree and runs them.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
tmp="$(mktemp -d /tmp/vmon.XXXXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
trap 'exit 3' INT TERM
mkdir -p "$here/evidence"
cd "$here/harness" || exit 3
if ! go build -o "$tmp/vmon" . >"$tmp/build.log" 2>&1; then
	echo "cannot build the monitors against /repo:"
	head -c 4000 "$tmp/build.log"
	exit 3
fi
"$tmp/vmon" -prop "$1" -verif "$here" -tmp "$tmp"
