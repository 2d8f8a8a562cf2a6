#!/bin/bash
# builds the SSA extractor and warms the build cache; offline
cd "$(dirname "$0")"
python3-vt - <<'P'
import sys
sys.path.insert(0, 'engine')
from driver import *
print(extractor())
P
