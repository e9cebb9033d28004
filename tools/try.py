#!/usr/bin/env python3
"""Development helper: try.py DRIVER MODE COUNT SPEC 'CONST=VAL;...' [seed]: prints grouped rejections."""
import sys, os, json, collections
from vlib import *
drv, mode, count, mod = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
consts = dict(x.split('=', 1) for x in sys.argv[5].split(';') if x) if len(sys.argv) > 5 else {}
seed = int(sys.argv[6]) if len(sys.argv) > 6 else 1
show = int(sys.argv[7]) if len(sys.argv) > 7 else 6
t = time.time()
try:
    lines = run_driver(drv, mode, seed, count)
    t1 = time.time()
    v = validate(mod, lines, consts)
except (CheckError, vbuild.BuildError) as e:
    x = str(e); i = x.find('rror'); print(x[max(0, i-30):][:500]); j = x.find("0. Line"); print(x[j:][:2500] if j >= 0 else ""); sys.exit(2)
print('%d traces, %d rejected; driver %.1fs tlc %.1fs states %d' % (v.n, len(v.rejected), t1 - t, time.time() - t1, v.states))
groups = collections.OrderedDict()
dia = ThreadPoolExecutor(6).map(lambda i: diagnose(mod, lines[i], consts), v.rejected[:show])
for i, (acc, k, last) in zip(v.rejected[:show], dia):
    tr = json.loads(lines[i])
    if os.environ.get('SUM'):
        e = json.loads(lines[i])['ev'][k - 1]; print(json.loads(lines[i])['id'], k, e.get('op', e['e']), {a: e[a] for a in ('ok', 'ex', 'flt', 'crashed', 'f') if a in e}); continue
    print('---', tr['id'], 'cfg', json.dumps(tr['cfg'])[:300], 'rejected at', k, 'of', len(tr['ev']))
    for j, e in enumerate(tr['ev'][max(0, k - 9):k]): print('   ', json.dumps(e, separators=(',', ':'))[:int(os.environ.get('W', '300')) if j < min(9, k) - 1 else 3000])
    if len(sys.argv) > 8: print('   STATE', ' '.join(last.split())[:1800] if sys.argv[8] == 'x' else '')
