#!/usr/bin/env python3
"""check.py ID [ID...]: decide properties of /repo's current source.  See DESIGN.md."""
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'nsa'))
import registry

if __name__ == '__main__':
    rc = 0
    for pid in sys.argv[1:] or sorted(registry.CHECKS):
        rc = max(rc, registry.run(pid))
    sys.exit(rc)
