#!/bin/bash
# Checks that the simulator can start here; builds nothing that is not rebuilt by the checks themselves.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode = True; import music21, jsonpickle; assert sys.version_info[:2] >= (3, 12), sys.version'
