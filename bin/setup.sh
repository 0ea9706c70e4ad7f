#!/bin/bash
# nothing to install: every check compiles what it needs; this only verifies that the tools are there
set -e
cd "$(dirname "$0")/.."
command -v java gcc g++ python3 >/dev/null
test -r /opt/veriftools/tla/tla2tools.jar
mkdir -p build evidence replays
