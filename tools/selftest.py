#!/usr/bin/env python3
"""Each model with a switch turned off is a wrong algorithm: TLC must find it wrong (by hand; the thorough checks do the same)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, check
class C(vlib.Check):
    def n(self, q, t): return t
    def scripts(self, module, consts, fmt, inv=(), **kw):
        if module not in done:
            done.add(module); self.refute(module, consts, inv)
            print(module, [x for x in self.cov.get('refuted', []) if x.startswith(module + ' ')], flush=True)
        return []
    def traces(self, *a, **k): pass
    def replay_scripts(self, *a, **k): pass
done = set()
for pid in sorted(check.REG):
    c = C(pid)
    try: check.REG[pid](c)
    except ValueError as e: print(pid, e)   # nothing to sample from
