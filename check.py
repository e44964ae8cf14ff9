#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property for the current tree of /repo."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core
from rules import catalog
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = catalog.CHECKS[prop]
    sys.exit(core.run_property(prop, tier, c["units"], c["level"], c["explanation"], c["assumptions"], c.get("trusted_base", ())))
if __name__ == "__main__": main()
