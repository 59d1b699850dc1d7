#!/bin/bash
# builds the accuracy engine from the committed sources (every check does it on demand as well)
set -e
cd "$(dirname "$0")"
python3-vt -c 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, "lib"); import acc; print(acc.engine_binary())'
