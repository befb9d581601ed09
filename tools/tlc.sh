#!/bin/bash
# tools/tlc.sh MODULE [CFG] [extra TLC args]   (a module of spec/)
root=$(cd "$(dirname "$0")/.." && pwd)
cd "$root/spec"
m=$1; c=${2:-$1.cfg}; shift; shift
exec java -Xmx${XMX:-6g} -Xss64m -XX:+UseParallelGC -cp "$root/target/tlc:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" \
  tlc2.TLC -metadir /tmp/tlcmeta.$$ -noGenerateSpecTE -workers ${WORKERS:-8} -config $c "$@" $m.tla
