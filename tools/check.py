#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Check, main
import checks_net, checks_store, checks_mime, checks_misc

REG = {}
for m in (checks_net, checks_store, checks_mime, checks_misc): REG.update(m.REG)

if __name__ == '__main__':
    pid = sys.argv[1] if len(sys.argv) > 1 else ''
    if pid not in REG:
        print('unknown property', pid, '; known:', ' '.join(sorted(REG))); sys.exit(2)
    def run():
        c = Check(pid)
        REG[pid](c)
        c.finish()
    main(run)
