#!/usr/bin/env python3
"""Runs drivers, TLC on models and on recorded traces; writes evidence and replays."""
import os, sys, json, subprocess, re, time, shutil, tempfile, random, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
VERIF, B = vbuild.VERIF, vbuild.B
SPEC = os.path.join(VERIF, 'spec')
JOBS = os.cpu_count() or 8
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'

class CheckError(Exception): pass

def tlc_cmd():
    """the java command line behind `tlc` (class path incl. CommunityModules)"""
    return ['tlc']

def run_tlc(module, cfg_text, env=None, workers=None, deadlock=False, timeout=800, extra=(), simulate=None, heap=None):
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    try:
        cfg = os.path.join(d, module + '.cfg')
        with open(cfg, 'w') as f: f.write(cfg_text)
        cmd = tlc_cmd() + ['-config', cfg, '-metadir', os.path.join(d, 'meta'), '-workers', str(workers or JOBS), '-nowarning', '-noGenerateSpecTE']
        if not deadlock: cmd.append('-deadlock')      # -deadlock = do not check for deadlock
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + '.tla'))
        e = dict(os.environ)
        if heap: e['JAVA_TOOL_OPTIONS'] = (e.get('JAVA_TOOL_OPTIONS', '') + ' -Xmx%s -Xss64m' % heap).strip()
        else: e['JAVA_TOOL_OPTIONS'] = (e.get('JAVA_TOOL_OPTIONS', '') + ' -Xss64m').strip()
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        out = r.stdout.decode('utf-8', 'replace')
        st = dict(rc=r.returncode, out=out, states=0, distinct=0)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
        if m: st['states'], st['distinct'] = (int(x.replace(',', '')) for x in m[-1])
        return st
    finally:
        shutil.rmtree(d, ignore_errors=True)

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(B, 'scratch'); os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run-', dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def run_driver(drv, mode, seed, count, start=0, timeout=600, env=None, jobs=None):
    """runs `count` scenarios in parallel; returns the list of trace lines"""
    exe = vbuild.build_driver(drv)
    n = min(jobs or JOBS, max(1, count // 8))
    step = (count + n - 1) // n
    def one(k):
        a = start + k * step
        c = min(step, start + count - a)
        if c <= 0: return []
        out = os.path.join(scratch(), '%s-%s-%d.nd' % (drv, mode, a))
        e = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC'); e.update(env or {})
        try:
            r = subprocess.run([exe, mode, str(seed), str(a), str(c), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=scratch())
        except subprocess.TimeoutExpired:
            raise CheckError('driver %s %s timed out' % (drv, mode))
        if r.returncode != 0:
            raise CheckError('driver %s %s failed (%d): %s' % (drv, mode, r.returncode, r.stdout.decode('utf-8', 'replace')[-2000:]))
        with open(out) as f: ls = f.read().splitlines()
        os.unlink(out)
        return ls
    with ThreadPoolExecutor(n) as ex:
        return [l for ls in ex.map(one, range(n)) for l in ls]

def cfg_of(consts, spec=('Init', 'Next'), inv=()):
    t = 'INIT %s\nNEXT %s\n' % spec
    if consts:
        t += 'CONSTANTS\n' + ''.join('  %s = %s\n' % (k, v) for k, v in consts.items())
    for i in inv: t += 'INVARIANT %s\n' % i
    return t

class Validation:
    def __init__(self): self.rejected = []; self.states = 0; self.n = 0; self.events = 0

def validate(module, lines, consts, timeout=800, batch=4000):
    """checks every trace (JSON line) against module; returns Validation with the rejected indices"""
    v = Validation(); v.n = len(lines)
    for b in range(0, len(lines), batch):
        part = lines[b:b + batch]
        idx = [i for i in range(len(part)) if '"ev":[]' not in part[i]]      # a trace without events is trivially accepted
        acc = set(); tries = 0; bad = []
        while idx:
            fd, f = tempfile.mkstemp(suffix='.nd', dir=scratch())
            with os.fdopen(fd, 'w') as fh: fh.write('\n'.join(part[i] for i in idx) + '\n')
            st = run_tlc(module, cfg_of(consts), env={'TRACES': f}, timeout=timeout)
            os.unlink(f)
            acc |= {idx[int(x) - 1] for x in re.findall(r'<<"ACC", (\d+)>>', st['out'])}
            v.states += st['states']
            if st['rc'] == 0: break
            # the specification has no value for an event of this trace (an observation of a kind the model
            # excludes): the trace is not a behaviour of the specification
            m = re.findall(r'/\\ tid = (\d+)', st['out'])
            if not m or 'The behavior up to this point' not in st['out']:
                raise CheckError('TLC failed on %s (rc %d):\n%s' % (module, st['rc'], st['out'][-6000:]))
            bad.append(idx[int(m[-1]) - 1]); tries += 1
            idx = [i for i in idx if i not in acc and i != bad[-1]]
            if tries >= 12: idx = []; v.cut = True
        ok = acc - set(bad)
        for i, ln in enumerate(part):
            if i not in ok and '"ev":[]' not in ln and not (tries >= 12 and i not in bad): v.rejected.append(b + i)
        v.states += 0
    return v

def diagnose(module, line, consts):
    """how far the trace gets: (accepted?, length of the matched prefix, last state text)"""
    fd, f = tempfile.mkstemp(suffix='.nd', dir=scratch())
    with os.fdopen(fd, 'w') as fh: fh.write(line + '\n')
    try: st = run_tlc(module, cfg_of(consts), env={'TRACES': f}, workers=1, deadlock=True)
    finally: os.unlink(f)
    if '<<"ACC", 1>>' in st['out']: return True, None, ''
    if 'Deadlock reached' not in st['out'] and 'The behavior up to this point' not in st['out']:
        raise CheckError('TLC failed on the re-run of %s:\n%s' % (module, st['out'][-6000:]))
    states = re.split(r'\nState \d+: ', st['out'])
    last = states[-1].split('\n\n')[0] if len(states) > 1 else st['out'][st['out'].find('Initial predicate'):][:3000]
    m = re.search(r'/\\ l = (\d+)', last)
    return False, int(m.group(1)) if m else None, last

class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid; self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in sys.argv: self.tier = sys.argv[sys.argv.index('--tier') + 1]
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models=[], trace_sets=[])
        self.assumptions = []
        self.violations = []; self.known = []; self.knownfile = load_known()
    def n(self, quick, thorough): return thorough if self.thorough else quick
    def model(self, module, consts, inv=(), deadlock=False, timeout=800, note='', spec=('Init', 'Next'), props=(), extra=()):
        cfg = cfg_of(consts, spec=spec, inv=inv)
        for p in props: cfg += 'PROPERTY %s\n' % p
        st = run_tlc(module, cfg, deadlock=deadlock, timeout=timeout, extra=extra)
        if st['rc'] != 0:
            raise CheckError('model %s does not satisfy its invariants (this is an error of the specification, not of the code):\n%s' % (module, st['out'][-6000:]))
        self.cov['states'] += st['distinct']; self.cov['transitions'] += st['states']
        self.cov['models'].append(dict(module=module, constants=consts, invariants=list(inv) + list(props), states=st['distinct'], transitions=st['states'], note=note))
        return st
    def scripts(self, module, consts, fmt, inv=(), note='', cap=None, timeout=800, **kw):
        """explores the model exhaustively (its invariants are checked) and returns its behaviours, as script lines"""
        st = self.model(module, dict(consts, GenScripts='TRUE'), inv=inv, note=note, timeout=timeout, **kw)
        if self.thorough: self.refute(module, consts, inv)
        out = []
        for l in st['out'].split('\n'):
            if l.startswith('"SCRIPT '):
                out.append(fmt(json.loads(json.loads(l)[7:])))
        out = sorted(set(out))
        if not out: raise CheckError('model %s generated no behaviour' % module)
        total = len(out)
        if cap and total > cap: out = random.Random(self.seed).sample(out, cap)
        self.cov.setdefault('behaviours', []).append(dict(module=module, constants=consts, generated=total, replayed=len(out)))
        return out
    def refute(self, module, consts, inv):
        """each TRUE constant of a model is a switch which, turned off, makes the algorithm wrong: TLC must see it (the invariant says something)"""
        for k in [k for k in consts if consts[k] == 'TRUE']:
            st = run_tlc(module, cfg_of(dict(consts, GenScripts='FALSE', **{k: 'FALSE'}), inv=inv), timeout=800)
            if 'is violated' not in st['out']: raise CheckError('model %s accepts the wrong algorithm (%s = FALSE):\n%s' % (module, k, st['out'][-3000:]))
            self.cov.setdefault('refuted', []).append('%s with %s = FALSE' % (module, k))
    def replay_scripts(self, drv, mode, scripts, module, consts, batch=6000, env=None):
        f = os.path.join(scratch(), 'scripts.txt')
        with open(f, 'w') as fh: fh.write('\n'.join(scripts) + '\n')
        self.cur_scripts = scripts
        try: return self.traces(drv, mode, len(scripts), module, consts, env=dict(env or {}, SCRIPTS=f), batch=batch)
        finally: self.cur_scripts = None
    def traces(self, drv, mode, count, module, consts, start=0, jobs=None, env=None, seed=None, batch=4000):
        self.cur_env = {k: v for k, v in (env or {}).items() if k != 'SCRIPTS'}
        lines = run_driver(drv, mode, self.seed if seed is None else seed, count, start, jobs=jobs, env=env)
        if len(lines) != count: raise CheckError('driver %s %s wrote %d of %d traces' % (drv, mode, len(lines), count))
        return self.check_lines(drv, mode, lines, module, consts, batch)
    def check_lines(self, drv, mode, lines, module, consts, batch=4000):
        v = validate(module, lines, consts, batch=batch)
        nev = sum(l.count('{"e":') for l in lines)
        self.cov['traces_validated_against_impl'] += v.n
        self.cov['states'] += v.states; self.cov['transitions'] += v.states
        self.cov['trace_sets'].append(dict(driver=drv, mode=mode, traces=v.n, events=nev, spec=module, distinct=len({hashlib.sha1(l.split('"cfg":', 1)[1].encode()).hexdigest() for l in lines})))
        if lines:
            s = lines[len(lines) // 2]
            self.cov['samples'].append((s[:1500] + '...') if len(s) > 1500 else s)
        with ThreadPoolExecutor(4) as ex:
            for i, d in zip(v.rejected[:24], ex.map(lambda i: diagnose(module, lines[i], consts), v.rejected[:24])):
                self.reject(drv, mode, lines[i], module, consts, d)
        if len(v.rejected) > 24: print('(%d further rejected traces not analysed)' % (len(v.rejected) - 24))
        return lines
    def reject(self, drv, mode, line, module, consts, d):
        acc, k, last = d
        if acc:   # not repeatable: an error of the machinery
            raise CheckError('rejection of a trace of %s by %s could not be repeated' % (drv, module))
        tr = json.loads(line)
        ev = tr['ev'][k - 1] if k and k <= len(tr['ev']) else None
        key = signature(tr, ev)
        self.violation(tr, module, consts, k, ev, last, drv, mode)
    def violation(self, tr, module, consts, k, ev, last, drv, mode):
        for kf in self.knownfile:
            if kf['property'] == self.pid and matches(kf, tr, k):
                if kf['id'] not in self.known:
                    self.known.append(kf['id'])
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what']))
                return
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        p = os.path.join(VERIF, 'replays', '%s-%d.json' % (self.pid, len(self.violations) + 1))
        json.dump(dict(property=self.pid, driver=drv, mode=mode, id=tr.get('id'), spec=module, constants=consts,
                       rejected_at_event=k, event=ev, spec_state_before=last,
                       env=getattr(self, 'cur_env', {}), script=self.script_of(tr),
                       replay='python3 /verif/tools/replay.py ' + p, trace=tr), open(p, 'w'), indent=1)
        self.violations.append(p)
        evs = json.dumps(ev)
        if len(self.violations) <= 5: print('rejected: %s at event %s: %s' % (tr.get('id'), k, evs[:200]))
        if len(self.violations) <= 10:
            print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)
    def script_of(self, tr):
        sc = getattr(self, 'cur_scripts', None)
        try: return sc[int(tr['id'].split(' ')[2])] if sc else None
        except (ValueError, IndexError): return None
    def finish(self, **kw):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        ev['coverage']['known_findings'] = self.known
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        print('%s: %d traces validated, %d model states, %.0fs, %d violation(s)' % (self.pid, self.cov['traces_validated_against_impl'], sum(m['states'] for m in self.cov['models']), time.time() - self.t0, len(self.violations)))
        sys.exit(1 if self.violations else 0)

def signature(tr, ev): return json.dumps(ev)[:80]

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k.get('status') == 'open']

def matches(kf, tr, k):
    """a known finding is identified by a predicate over the rejected trace: the events, in order, that
    must precede and include the rejection point"""
    ev = tr['ev'][k - 1] if k and k <= len(tr['ev']) else {}
    m = kf['match']
    for f, val in m.get('event', {}).items():
        if ev.get(f) != val: return False
    for f, val in m.get('cfg', {}).items():
        if tr['cfg'].get(f) != val: return False
    for f, rx in m.get('event_re', {}).items():
        if not re.search(rx, json.dumps(ev.get(f))): return False
    hist = m.get('after', [])
    i = 0
    for e in tr['ev'][:(k or 1) - 1]:
        if i < len(hist) and all(e.get(a) == b for a, b in hist[i].items()): i += 1
    return i == len(hist)

def main(fn):
    try:
        fn()
    except (CheckError, vbuild.BuildError) as e:
        print('ERROR: ' + str(e)); sys.exit(2)
