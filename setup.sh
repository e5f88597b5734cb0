#!/bin/bash
# Nothing to install: checks that the tools are there and warms the Go build cache.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'lib'); sys.dont_write_bytecode = True
from vlib import *
w = Work()
w.build()
print('driver builds')
P
