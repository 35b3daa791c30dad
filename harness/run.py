"""run.py PROP HARNESS: builds and runs a harness; last line of output is JSON."""
import sys, os, json, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
WRAP = lambda *a: ['-Wl,--wrap=' + x for x in a]
LD = {'h_inotify': WRAP('inotify_add_watch', 'inotify_rm_watch', 'read', 'select', 'getuid', 'statfs', '_ZN4efsw14WatcherInotifyC1Ev')}
LD['h_generic'] = WRAP('getuid', 'statfs')
CAP = {'h_inotify': 2500, 'h_generic': 9000}   # scenarios of a quick run: the same ones on every machine
SAN = {'h_fileinfo': None}   # indeterminate stack contents show only without the sanitiser's redzones


def run(prop, name):
    exe, err = build.build(name, san=SAN.get(name, 'address,undefined'), ldflags=LD.get(name, ()))
    if not exe:
        return {'status': 'build-failed', 'out': err}
    budget = float(os.environ.get('HARNESS_BUDGET', '10'))
    env = dict(os.environ, HARNESS_PROP=prop, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77')
    if os.environ.get('VERIF_TIER', 'quick') == 'quick' and name in CAP:
        env['HARNESS_CAP'] = str(CAP[name])
    t = time.time()
    try:
        p = subprocess.run([exe, prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget * 3 + 60)
        out, rc = p.stdout.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as x:
        return {'status': 'timeout', 'out': (x.stdout or b'').decode(errors='replace')[-1500:]}
    r = {'status': 'error', 'out': out[-3000:], 'seconds': round(time.time() - t, 1), 'samples': []}
    for l in out.splitlines():
        if l.startswith('EVALS'):
            _, a, _, b = l.split()
            r['evals'], r['distinct'] = int(a), int(b)
        if l.startswith('SAMPLE '):
            r['samples'].append(l[7:][:300])
    if rc == 0:
        r['status'], r['out'] = 'ok', ''
    elif 'FAIL property=' in out:
        r['status'], r['out'] = 'fail', out[out.index('FAIL property='):][:4000]
    elif 'AddressSanitizer' in out or 'runtime error:' in out:
        i = out.find('runtime error:') if 'runtime error:' in out else out.find('ERROR: AddressSanitizer')
        j = out.rfind('CASE ', 0, i)
        r['status'], r['out'] = 'fail', (out[j:j + 800] + '\n' if j >= 0 else '') + out[max(0, i - 200):i + 3000]
    elif rc < 0:
        r['status'], r['out'] = 'fail', 'the code crashed with signal %d\n%s' % (-rc, out[-2000:])
    return r


def run_all(prop, names):
    """several programs side by side, one verdict"""
    names = names.split(',')
    if len(names) == 1:
        return run(prop, names[0])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(names)) as ex:
        rs = list(ex.map(lambda n: run(prop, n), names))
    for st in ('fail', 'build-failed', 'timeout', 'error', 'ok'):
        b = [r for r in rs if r['status'] == st]
        if b:
            break
    r = dict(b[0])
    r['evals'], r['distinct'] = sum(x.get('evals', 0) for x in rs), sum(x.get('distinct', 0) for x in rs)
    r['samples'] = [y for x in rs for y in x.get('samples', [])[:3]]
    r['seconds'] = max(x.get('seconds', 0) for x in rs)
    if r['status'] == 'fail':
        r['out'] = 'program: %s\n' % names[rs.index(b[0])] + r['out']
    return r


if __name__ == '__main__':
    print(json.dumps(run_all(sys.argv[1], sys.argv[2])))
