#!/usr/bin/env python3
"""check.py <property>: run the check of one property. check.py --setup: prebuild the monitors."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, registry

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(registry.setup())
    pid = sys.argv[1]
    sys.exit(core.main(pid, registry.CHECKS[pid]))
