#!/usr/bin/env python3
"""seed.py ID... : verifies planted bugs: applies, touches original lines, builds, tests pass, demo fails with and passes
without, and which checks (meta.property; or those named with -c) catch it. --demo: demos only; --fast: no stable tests"""
import sys, os, json, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def base(): return sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.split()[0] if False else '307a422'
def original(patch):
    """removed lines that come from the original repository"""
    n = 0; mine = 0; f = None
    for l in open(patch):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)); continue
        if f is None or l.startswith('+++') or l.startswith('---'): continue
        if l.startswith('-'):
            b = sh("git -C %s blame -s -L %d,%d %s..HEAD -- %s" % (R, ln, ln, base(), f)).stdout
            if b.startswith('^'): n += 1
            else: mine += 1
            ln += 1
        elif l.startswith(' '): ln += 1
    return n, mine
def demo(d): return sh('bash %s/demo.sh' % d, cwd=R).returncode
def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]; o = [x for x in sys.argv[1:] if x.startswith('-')]
    checks = [x[2:] for x in o if x.startswith('-c')]
    if sh('git -C %s status --porcelain' % R).stdout.strip(): print('repo not clean'); return 1
    for i in a:
        d = os.path.join(V, 'seeded', i); p = os.path.join(d, 'patch.diff'); m = json.load(open(d + '/meta.json'))
        res = dict(orig=original(p))
        sh('bash /opt/vp/build.sh'); res['demo_clean'] = demo(d)
        r = sh('git -C %s apply %s' % (R, p))
        if r.returncode: print(i, 'does not apply', r.stdout); continue
        try:
            b = sh('bash /opt/vp/build.sh')
            res['build'] = b.returncode
            if b.returncode: print(b.stdout[-2000:])
            res['demo_bug'] = demo(d)
            if '--fast' not in o:
                t = sh('python3 %s/tools/basecmp.py' % V); res['tests'] = t.stdout.strip()[-160:]
            if '--demo' not in o:
                for c in checks or [m['property']]:
                    r = sh('python3 tools/check.py %s --tier quick' % c, cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                    rej = [l for l in r.stdout.split('\n') if l.startswith('rejected')]
                    res[c] = (r.returncode, len(rej), r.stdout.strip().split('\n')[-1][:120], rej[:1])
        finally:
            sh('git -C %s checkout -- .' % R)
        print(i, json.dumps(res), flush=True)
    sh('bash /opt/vp/build.sh')
main()
