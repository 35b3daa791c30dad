"""mkseed.py ID PROPERTY FILE: reads old / new text, meta and demo from a python dict on stdin and stores the planted bug."""
import sys, os, json, subprocess, shutil
SEEDS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seedlib')


def seed(id, prop, edits, needs, breaks, demo, san='', run=''):
    d = os.path.join(SEEDS, id)
    os.makedirs(d, exist_ok=True)
    t = '/tmp/seedtmp'
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', t])
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w', newline='').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t, 'diff'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    shutil.rmtree(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.cpp'), 'w').write('#include "demo.hpp"\n' + demo)
    shutil.copy(LIB + '/demo.hpp', d)
    open(os.path.join(d, 'demo.sh'), 'w').write(open(LIB + '/demo.sh').read().replace('SAN', san).replace('RUN', run))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
