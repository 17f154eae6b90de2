#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]: decides one property for /repo's current tree."""
import sys
from vlib import core
from checks import CHECKS
if __name__ == "__main__":
    sys.exit(core.main(lambda pid: CHECKS[pid], sys.argv))
