#!/bin/bash
# Builds the drivers once (each check builds what it needs by itself).
cd "$(dirname "$0")/.." && python3 -c '
import sys; sys.path.insert(0, "lib")
import vk
for c in ("core-drv", "io-drv", "std-drv", "zkenc-cli"): vk.build(c)
print("built")'
