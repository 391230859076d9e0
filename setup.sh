#!/bin/bash
# Verifies that the tools the checks use are present and that the override compiles.
# The checks compile it again themselves, so nothing here has to persist.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$d" java/NumOverrides.java
test -f "$d/NumOverrides.class"
rm -rf "$d"
/opt/venv/bin/python -c "import numpy, scipy, pandas, pyrvt, pykooh"
echo setup ok
