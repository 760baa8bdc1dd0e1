#!/bin/bash
# Nothing is built ahead of the checks: each check imports mentpy from /repo's working tree and
# runs TLC on the committed specifications. This only verifies that the tools are there.
cd "$(dirname "$0")" || exit 1
chmod +x run.sh
/opt/venv/bin/python -c "import numpy, networkx, galois" || exit 1
java -version 2>/dev/null || exit 1
[ -f /opt/veriftools/tla/tla2tools.jar ] && [ -f /opt/veriftools/tla/CommunityModules-deps.jar ]
