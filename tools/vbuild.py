#!/usr/bin/env python3
"""Builds libvmime (static) from /repo's current working tree, and the harness drivers of /verif,
into /verif/build.  Object reuse is decided by content (hash of the source and of every file it
included last time, plus the command line), never by time stamps."""
import os, sys, json, hashlib, subprocess, fcntl, re, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = os.cpu_count() or 8
CXX = 'g++'
HOOK = 'VMIME_VERIF_HOOKS'
OPT = ['-std=c++17', '-O0', '-g0', '-w', '-pipe', '-D_GLIBCXX_ASSERTIONS', '-DVMIME_STATIC', '-D_REENTRANT=1']

class BuildError(Exception): pass
_hash = {}
def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f: h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        _hash[p] = h
    return h

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_key():
    """content hash of everything cmake looks at"""
    files = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('.git', '_build', 'tests', 'examples', 'doc'))
        for f in sorted(fs):
            if f == 'CMakeLists.txt' or f.endswith(('.cmake', '.in')) or (f.endswith(('.cpp', '.hpp', '.inl', '.c', '.h'))):
                files.append(os.path.join(root, f))
    h = hashlib.sha1()
    names = []
    for f in files:
        rel = os.path.relpath(f, REPO)
        names.append(rel)
        if not f.endswith(('.cpp', '.hpp', '.inl', '.c', '.h')):
            h.update((rel + fhash(f)).encode())
    h.update('\n'.join(names).encode())
    return h.hexdigest()

def configure():
    """runs cmake when the file list or the cmake files changed; returns (sources, includes)"""
    cfg = os.path.join(B, 'cfg')
    key = tree_key() + REPO
    stamp = os.path.join(cfg, 'key')
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        subprocess.run(['rm', '-rf', cfg], check=True)
        os.makedirs(cfg)
        r = sh(['cmake', '-S', REPO, '-B', cfg, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=None',
                '-DVMIME_BUILD_TESTS=OFF', '-DVMIME_BUILD_SAMPLES=OFF', '-DVMIME_BUILD_DOCUMENTATION=OFF',
                '-DVMIME_BUILD_SHARED_LIBRARY=OFF', '-DVMIME_SENDMAIL_PATH=/usr/sbin/sendmail',
                '-DVMIME_TLS_SUPPORT_LIB=gnutls', '-DVMIME_CHARSETCONV_LIB=icu',
                '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], env=dict(os.environ, CC='gcc', CXX='g++'))
        if r.returncode != 0:
            raise BuildError('cmake failed:\n' + r.stdout[-3000:])
        with open(stamp, 'w') as f: f.write(key)
    cc = json.load(open(os.path.join(cfg, 'compile_commands.json')))
    srcs = sorted({e['file'] for e in cc})
    inc = []
    for tok in cc[0]['command'].split():
        if tok.startswith('-I') and tok not in inc: inc.append(tok)
    link = open(os.path.join(cfg, 'vmime.pc')).read() if os.path.exists(os.path.join(cfg, 'vmime.pc')) else ''
    return srcs, inc

def compile_one(src, obj, flags):
    """returns True when recompiled"""
    meta = obj + '.json'
    cmd = [CXX] + flags
    key = ' '.join(cmd)
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m['key'] == key and all(fhash(d) == h for d, h in m['deps'].items()):
                return False
        except (ValueError, KeyError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    d = obj + '.d'
    for p in (obj, meta):
        if os.path.exists(p): os.unlink(p)
    r = sh(cmd + ['-MD', '-MF', d, '-c', src, '-o', obj])
    if r.returncode != 0:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
    txt = open(d).read().replace('\\\n', ' ')
    deps = txt.split(':', 1)[1].split()
    deps = {p: fhash(p) for p in deps if not p.startswith('/usr/')}
    json.dump({'key': key, 'deps': deps}, open(meta, 'w'))
    os.unlink(d)
    return True

def pmap(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))

def build_lib(variant='std', extra=()):
    os.makedirs(B, exist_ok=True)
    srcs, inc = configure()
    flags = OPT + ['-D' + HOOK + '=1'] + list(extra) + inc
    odir = os.path.join(B, 'obj-' + variant)
    pairs = [(s, os.path.join(odir, os.path.relpath(s, REPO) + '.o')) for s in srcs]
    # the longest compilations first
    pairs.sort(key=lambda p: -os.path.getsize(p[0]))
    ch = pmap(lambda p: compile_one(p[0], p[1], flags), pairs)
    lib = os.path.join(B, 'libvmime-%s.a' % variant)
    objs = sorted(p[1] for p in pairs)
    lkey = hashlib.sha1('\n'.join(objs).encode()).hexdigest()
    lk = lib + '.key'
    if any(ch) or not os.path.exists(lib) or not os.path.exists(lk) or open(lk).read() != lkey:
        if os.path.exists(lib): os.unlink(lib)
        r = sh(['ar', 'rcs', lib] + objs)
        if r.returncode: raise BuildError(r.stdout)
        open(lk, 'w').write(lkey)
    return lib, inc, sum(1 for c in ch if c)

_libs = None
def link_libs():
    global _libs
    if _libs is None:
        pk = sh(['pkg-config', '--libs', 'gnutls', 'libgsasl', 'icu-uc', 'icu-i18n'])
        _libs = pk.stdout.split() if pk.returncode == 0 else ['-lgnutls', '-lgsasl', '-licuuc', '-licui18n', '-licudata']
    return _libs + ['-lpthread', '-lanl']

def build_driver(name, variant='std'):
    """builds /verif/harness/<name>.cpp against libvmime; returns the path of the executable"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lib, inc, n = build_lib(variant)
        src = os.path.join(VERIF, 'harness', name + '.cpp')
        obj = os.path.join(B, 'drv-' + variant, name + '.o')
        flags = OPT + inc + ['-I' + os.path.join(VERIF, 'harness')]
        changed = compile_one(src, obj, flags)
        exe = os.path.join(B, 'drv-' + variant, name)
        key = fhash_nocache(obj) + fhash_nocache(lib)
        kf = exe + '.key'
        if changed or not os.path.exists(exe) or not os.path.exists(kf) or open(kf).read() != key:
            r = sh([CXX, '-o', exe, obj, lib] + link_libs())
            if r.returncode: raise BuildError('link failed:\n' + r.stdout[-3000:])
            open(kf, 'w').write(key)
        return exe

def fhash_nocache(p):
    with open(p, 'rb') as f: return hashlib.sha1(f.read()).hexdigest()

if __name__ == '__main__':
    t = time.time()
    try:
        lib, inc, n = build_lib()
        print('lib: %d objects recompiled, %.1fs' % (n, time.time() - t))
        names = sys.argv[1:]
        if names == ['--all']:
            names = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(VERIF, 'harness', 'drv_*.cpp')))
        for nme in names:
            build_driver(nme)
            print('driver %s ok, %.1fs' % (nme, time.time() - t))
    except BuildError as e:
        print(e); sys.exit(2)
