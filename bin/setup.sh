#!/bin/bash
# build the harness crates and parse the specification, offline
set -e
cd "$(dirname "$0")/.."
python3 bin/check.py --build
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > ../build/sany.log 2>&1 || { cat ../build/sany.log; exit 1; }
done
echo ready
