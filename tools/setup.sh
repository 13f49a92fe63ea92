#!/bin/bash
# Compiles the Java implementation of BigRat and checks it against its TLA+ definitions.
set -euo pipefail
cd "$(dirname "$0")/.."
/opt/venv/bin/python -B - <<'P'
import os, shutil, sys
sys.path.insert(0, os.getcwd())
from harness import tlc
tlc.build()
tmp = os.path.join(os.getcwd(), "run", "setup")
os.makedirs(tmp, exist_ok=True)
for override in (True, False):
    r = tlc.run("BigRatTest.tla", "BigRatTest.cfg", tmp, override=override, workers=1, timeout=300)
    print("BigRatTest", "with" if override else "without", "the Java implementation:", "ok" if r.ok else r.out[-2000:])
    assert r.ok
shutil.rmtree(tmp)
P
