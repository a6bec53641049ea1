#!/bin/bash
# Nothing to build: Python and TLC read the committed files.  Check that they are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import xdis, sys; sys.path.insert(0, 'harness'); import minicomp, families"
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
