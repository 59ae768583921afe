#!/bin/bash
# Builds the harnesses once and parses every specification, so that a broken environment shows early.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
from vlib import *
for crate in ("harness", "capi", "jsapi", "cbuf"):
    cargo_build(crate)
P
cd spec && for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m >/dev/null || { echo "cannot parse $m"; exit 1; }
done
