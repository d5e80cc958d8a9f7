#!/bin/bash
# Builds the harness from /repo (the checks build it again when the tree changed) and parses the specification.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import engine
engine.Harness().build(with_bin=True)
P
cd spec
for m in Trace MC; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /dev/null
done
