#!/bin/bash
# nothing has to be built in advance: every check compiles its harness from /repo's working tree
set -e
cd "$(dirname "$0")"
for t in g++-14 java python3; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c "import sys; sys.path.insert(0, 'tools'); import registry; print(len(registry.REGISTRY), 'checks')"
