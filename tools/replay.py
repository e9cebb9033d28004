#!/usr/bin/env python3
"""replay.py FILE: records the execution named in a replay file again on the current tree (where the driver can
regenerate it from its mode, seed and index) and judges it by the specification; falls back to the stored trace."""
import sys, json
from vlib import *
def run():
    r = json.load(open(sys.argv[1]))
    mode, seed, idx = r['id'].split(' ') if r.get('id') else (None,) * 3
    line = json.dumps(r['trace'])
    if r.get('script'):
        f = os.path.join(scratch(), 'scripts.txt'); open(f, 'w').write('\n' * 0 + r['script'] + '\n')
        line = run_driver(r['driver'], mode, seed, 1, 0, env=dict(r.get('env') or {}, SCRIPTS=f))[0]
    elif mode:
        line = run_driver(r['driver'], mode, seed, 1, int(idx), env=r.get('env'))[0]
    acc, k, last = diagnose(r['spec'], line, r['constants'])
    tr = json.loads(line)
    for i, e in enumerate(tr['ev'][:(k or len(tr['ev']))]): print('%4d %s' % (i + 1, json.dumps(e)[:600]))
    print('ACCEPTED' if acc else 'REJECTED at event %s; state of the specification before it:\n%s' % (k, last))
    sys.exit(0 if acc else 1)
main(run)
