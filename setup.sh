#!/bin/sh
# Nothing to build: TLA+ is interpreted by TLC and UnarySim is imported from /repo. Parse the specification once.
cd "$(dirname "$0")/spec" || exit 1
for m in Conform MC Session Config; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /dev/null || exit 1
done
mkdir -p ../evidence/replay
