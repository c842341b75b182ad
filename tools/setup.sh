#!/bin/sh
# nothing is kept built: make sure the tools the checks use are there
cd "$(dirname "$0")/.." || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1
command -v gcc >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar && /opt/venv/bin/python -c "import numpy, sklearn, torch" || exit 1
