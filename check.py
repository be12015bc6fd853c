#!/usr/bin/env python3
"""Check of one property: check.py <ID>   (VERIF_SEED, VERIF_TIER from the environment)."""
import sys
from mbv import core, props

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1], props.PLANS))
