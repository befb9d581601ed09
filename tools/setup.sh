#!/bin/bash
# Builds everything the checks use (they also build it themselves) and checks the primitives TLC uses.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "checks")
import os, check, tempfile, shutil
os.makedirs("out", exist_ok=True)
work = tempfile.mkdtemp(dir="out")
try:
    check.build_java()
    rc, out, g, d = check.tlc("MCPrim", open("spec/MCPrim.cfg").read(), work, "prim", "2g", 1, 300)
    if rc != 0:
        print(out[-3000:])
        raise SystemExit("the primitives do not satisfy their definitions")
    check.build_code("C27", work)
finally:
    shutil.rmtree(work, ignore_errors=True)
print("ready")
P
