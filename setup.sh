#!/bin/bash
# Compile the Java side of module R once (checks do it themselves when this cache is absent).
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'P'
import sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, "harness")
import core
with tempfile.TemporaryDirectory() as d:
    core.r_class(d)
print("ok")
P
for f in spec/*.tla; do :; done
