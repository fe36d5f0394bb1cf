#!/bin/bash
# Builds the harness (each check does so again if need be) and parses the specifications.
set -e
cd "$(dirname "$0")"
(cd harness && CARGO_NET_OFFLINE=true cargo build --offline -q)
cd spec
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo ready
