#!/bin/sh
# tlc.sh ARGS: TLC with a deep stack and its scratch files outside the source tree
exec java -XX:+UseParallelGC -Xss64m -Xmx${TLC_MEM:-6g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir ${TLC_META:-/verif/build/tlc/$$} "$@"
