#!/bin/bash
# Warms the build cache by compiling the driver once; checks rebuild it themselves.
cd "$(dirname "$0")/.." || exit 1
. bin/env.sh
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
from lib import common
common.driver(); common.web_driver(); common.exp_driver(); common.cleanup()
P
