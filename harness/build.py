"""Compiles /repo's Linux sources (internals visible) and a harness program."""
import os, sys, glob, subprocess, hashlib, threading, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EFSW_REPO', '/repo')
BASE = ['-std=c++11', '-O1', '-g1', '-w', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer', '-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/harness' % VERIF]


def sources():
    fs = sorted(glob.glob(REPO + '/src/efsw/*.cpp') + glob.glob(REPO + '/src/efsw/platform/posix/*.cpp'))
    return [f for f in fs if not any(x in os.path.basename(f) for x in ('Win32', 'FSEvents', 'Kqueue'))]


def digest(flags):
    h = hashlib.sha256(' '.join(flags).encode())
    for d in ('include', 'src'):
        for r, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    for f in ('pre.hpp',):
        h.update(open(os.path.join(VERIF, 'harness', f), 'rb').read())
    return h.hexdigest()[:20]


_lock = threading.Lock()


def build(name, san='address,undefined', ldflags=()):
    """returns (path, error); one build at a time"""
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    with _lock, open(os.path.join(VERIF, 'build', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_(name, san, ldflags)


def build_(name, san, ldflags):
    flags = BASE + (['-fsanitize=' + san, '-fno-sanitize-recover=undefined'] if san else [])
    out = os.path.join(VERIF, 'build', 'h-' + digest(flags + ['-include', 'pre.hpp']))
    os.makedirs(out, exist_ok=True)
    for old in glob.glob(os.path.join(VERIF, 'build', 'h-*')):
        if old != out and os.path.getmtime(old) < __import__('time').time() - 1200:
            __import__('shutil').rmtree(old, ignore_errors=True)
    objs, errs = [], []

    def cc(src, obj, extra):
        tmp = obj + '.%d.tmp' % os.getpid()
        p = subprocess.run(['g++'] + flags + extra + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return p.stdout.decode(errors='replace')[:3000]
        os.replace(tmp, obj)
        return None
    jobs = []
    for s in sources():
        o = os.path.join(out, os.path.basename(s) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, ['-include', os.path.join(VERIF, 'harness', 'pre.hpp')]))
    hs = os.path.join(VERIF, 'harness', name + '.cpp')
    ho = os.path.join(out, name + '.o')
    jobs.append((hs, ho, []))
    with ThreadPoolExecutor(8) as ex:
        for e in ex.map(lambda j: cc(*j), jobs):
            if e:
                errs.append(e)
    if errs:
        return None, errs[0]
    exe = os.path.join(out, name)
    p = subprocess.run(['g++'] + flags + [ho] + objs + list(ldflags) + ['-o', exe, '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout.decode(errors='replace')[:3000]
    return exe, None


if __name__ == '__main__':
    print(build(sys.argv[1], ldflags=sys.argv[2:]))
