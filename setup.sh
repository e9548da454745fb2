#!/bin/bash
# Builds the harnesses and the compiler below build/, offline.
set -e
cd "$(dirname "$0")"
exec python3 - <<'P'
import sys
sys.path.insert(0, "lib")
sys.dont_write_bytecode = True
import vp
for b in ("pkh", "pkparse", "pkresolve", "pkclock"):
    print(vp.build_harness(b))
print(vp.build_cli())
P
