#!/bin/bash
# tools/tlc.sh MODULE [CFG] : run TLC on spec/MODULE.tla
cd "$(dirname "$0")/../spec" || exit 1
m=$(mktemp -d); trap 'rm -rf "$m"' EXIT
java -XX:+UseParallelGC -Xmx10g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -deadlock -noGenerateSpecTE -metadir "$m" -config "${2:-$1.cfg}" "$1.tla" 2>&1 | grep -v "^Computed\|^Semantic\|^Parsing"
