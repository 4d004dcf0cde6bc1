#!/bin/bash
# nothing is built: checks the interpreters and that all specifications parse
cd "$(dirname "$0")/../spec" || exit 1
/opt/venv/bin/python -c "import numpy, xarray, pandas" || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/dev/null 2>&1 || { echo "does not parse: $f"; exit 1; }
done
echo ok
