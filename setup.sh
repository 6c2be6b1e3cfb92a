#!/bin/sh
# Checks that the tools are there; everything else is built by the checks themselves from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence out
for t in java gcc as python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
echo ready
