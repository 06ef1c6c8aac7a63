#!/bin/sh
# Confirms that the tools are there and that the sources build.
set -e
cd "$(dirname "$0")"
for t in gcc g++ python3; do command -v $t >/dev/null; done
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, 'lib')
import vlib
print('built', vlib.build('rel', ('mon',), cli=False))
P
