"""mutate.py SPEC[,SPEC] FILE 'old' 'new' [task-substring]: tries a change in a scratch copy and lists the obligations that fail."""
import sys, os, shutil, subprocess, tempfile
spec, f, a, b = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut-')
r = d + '/repo'
shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', 'build', 'bin', 'obj', '*.o', '*.so*'))
p = os.path.join(r, f)
s = open(p, newline='').read()
n = s.count(a)
if n < 1:
    sys.exit('text not found')
open(p, 'w', newline='').write(s.replace(a, b, 1))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = subprocess.run(['g++', '-std=c++11', '-fsyntax-only', '-I%s/include' % r, '-I%s/src' % r, p if p.endswith('.cpp') else r + '/src/efsw/FileWatcher.cpp'], stderr=subprocess.PIPE)
if c.returncode:
    print(c.stderr.decode()[:600])
for sp in spec.split(','):
    o = subprocess.run(['python3-vt', here + '/vc/runner.py', sp] + sys.argv[5:6], env=dict(os.environ, EFSW_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    for l in o.splitlines():
        w = l.split()
        if 'skipped' in l or (len(w) > 2 and w[1] == 'ok' and w[2].split('/')[0] == w[2].split('/')[1]):
            continue
        print(l[:220])
shutil.rmtree(d)
