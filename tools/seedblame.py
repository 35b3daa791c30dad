"""lists planted bugs whose removed lines are not of the original repository"""
import subprocess, sys, os, re
for d in sorted(os.listdir('/verif/seeded')):
    f, n, bad, rem = None, 0, 0, 0
    for l in open('/verif/seeded/%s/patch.diff' % d):
        if l.startswith('--- '): f = l[6:].strip(); continue
        if l.startswith('+++'): continue
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); continue
        if l.startswith('-'):
            rem += 1
            b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (n, n), f], text=True)
            if not b.startswith('^5612e47'): bad += 1
        if l[0] in ' -': n += 1
    print(d, 'removed', rem, 'not original', bad)
