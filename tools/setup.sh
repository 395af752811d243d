#!/bin/bash
# builds the harness and makes sure the specification parses
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import check
check.build()
P
cd spec
for m in Conf; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla >/dev/null
done
echo ok
