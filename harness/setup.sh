#!/bin/bash
# Nothing has to be built: checks that the tools are there and the
# specification parses.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -c 'import ground, hypothesis, dendroid, locus'
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
