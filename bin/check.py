#!/usr/bin/env python3
"""bin/check.py Cxx - runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import vk
pid = sys.argv[1]
mod = importlib.import_module(pid.lower())
vk.main(pid, mod.LEVEL, mod.run)
