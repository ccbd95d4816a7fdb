#!/bin/bash
# Checks that the toolchain is there and that the monitors build.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
go version
tmp="$(mktemp -d /tmp/vmon.XXXXXXXX)"
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness"
go build -o "$tmp/vmon" .
echo ok
