"""mk(id, property, file, [(old, new)...], needs, breaks, demo source): creates /verif/seeded/<id> from an edit of /repo"""
import os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(i, prop, edits, needs, breaks, demo):
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, stdout=subprocess.PIPE).stdout.strip()
    try:
        for f, old, new in edits:
            p = '/repo/src/vmime/' + f; s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        t = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE, text=True).stdout
        open(d + '/patch.diff', 'w').write(t)
    finally: subprocess.run('git -C /repo checkout -q -- .', shell=True)
    open(d + '/demo.cpp', 'w').write('#include "demo.hpp"\n' + demo.lstrip('\n'))
    for f in ('demo.hpp', 'demo.sh'): shutil.copy(os.path.join(V, 'tools/seedkit', f), d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
