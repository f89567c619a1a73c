#!/bin/sh
# Everything is compiled by each check; here only see that the parts are there.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
for f in /opt/veriftools/tla/tla2tools.jar /opt/veriftools/tla/CommunityModules-deps.jar /opt/veriftools/go1.27.3/bin/go; do
  [ -e "$f" ] || { echo "missing $f"; exit 1; }
done
mkdir -p build/setup-classes && javac -nowarn -proc:none -d build/setup-classes -cp /opt/veriftools/tla/tla2tools.jar java/ow/*.java
