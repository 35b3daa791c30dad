"""Loads the AST of /repo's current sources (through build/efsw-export)."""
import json, os, subprocess, glob, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EFSW_REPO', '/repo')
FLAGS = ['-std=c++11', '-O2', '-DNDEBUG', '-w', '-I%s/include' % REPO, '-I%s/src' % REPO]


class ExtractError(Exception):
    pass


def parse_type(s):
    """'std::map<K,V>' -> ('std::map', [K, V]); 'int' -> ('int', [])"""
    i = s.find('<')
    if i < 0 or s.startswith('operator'):
        return (s, ())
    name = s[:i]
    # nested name after template (e.g. std::vector<T>::iterator) keep as opaque
    depth = 0
    args, cur = [], ''
    j = i
    while j < len(s):
        c = s[j]
        if c == '<':
            depth += 1
            if depth > 1:
                cur += c
        elif c == '>':
            depth -= 1
            if depth == 0:
                if cur:
                    args.append(cur)
                break
            cur += c
        elif c == ',' and depth == 1:
            args.append(cur)
            cur = ''
        else:
            cur += c
        j += 1
    rest = s[j + 1:]
    if rest:
        return (s, ())
    return (name, tuple(args))


def base_name(key):
    """function key -> qualified name without template args and parameters"""
    out, d = '', 0
    i = 0
    while i < len(key):
        c = key[i]
        if key.startswith('<ctor>', i) and d == 0:
            out += '<ctor>'; i += 6; continue
        if key.startswith('<dtor>', i) and d == 0:
            out += '<dtor>'; i += 6; continue
        if key.startswith('operator', i) and d == 0:
            k = key.index('(', i + 8)
            if key[i + 8:i + 10] == '()':
                k = i + 10
            out += key[i:k]
            return out
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == '(' and d == 0:
            return out
        elif d == 0:
            out += c
        i += 1
    return out


class Program:
    def __init__(self, extra=()):
        self.fns = {}      # key -> fn dict
        self.recs = {}
        self.globals = {}
        self.by_name = {}
        exp = os.path.join(VERIF, 'build', 'efsw-export')
        if not os.path.exists(exp):
            subprocess.check_call([os.path.join(VERIF, 'tool', 'build.sh')])
        files = sorted(glob.glob(REPO + '/src/efsw/*.cpp') + glob.glob(REPO + '/src/efsw/platform/posix/*.cpp'))
        files = [f for f in files if not any(x in os.path.basename(f) for x in ('Win32', 'FSEvents', 'Kqueue', 'Debug'))]
        files += list(extra)
        self.files = files

        def one(f):
            root = REPO
            p = subprocess.run([exp, root, f, '--'] + FLAGS, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0 or not p.stdout:
                raise ExtractError('%s does not compile: %s' % (f, p.stderr.decode(errors='replace')[:2000]))
            return f, json.loads(p.stdout)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, files))
        for tu, (f, d) in enumerate(res):
            T = d['types']

            def fix(o):
                if isinstance(o, list):
                    for x in o:
                        fix(x)
                elif isinstance(o, dict):
                    for k in ('t', 'vt', 'ft', 'et', 'ot', 'ct', 'ret'):
                        if k in o and isinstance(o[k], int):
                            o[k] = T[o[k]] if o[k] >= 0 else None
                    if 'pt' in o:
                        o['pt'] = [T[x] for x in o['pt']]
                    if 'id' in o:
                        o['id'] = '%d_%d' % (tu, o['id'])
                    for k, v in o.items():
                        if isinstance(v, (dict, list)) and k != 'pt':
                            fix(v)
            fix(d['fns']); fix(d['recs']); fix(d['globals'])
            for fn in d['fns']:
                k = fn['key']
                if fn.get('internal'):
                    pass
                if k not in self.fns:
                    fn['file'] = f
                    self.fns[k] = fn
                    self.by_name.setdefault(base_name(k), []).append(fn)
            for r in d['recs']:
                if r['name'] not in self.recs or (r['fields'] and not self.recs[r['name']]['fields']):
                    self.recs[r['name']] = r
            for g in d['globals']:
                if g['n'] not in self.globals or (g.get('init') and not self.globals[g['n']].get('init')):
                    self.globals[g['n']] = g
        # overriding table
        self.over = {}
        for r in self.recs.values():
            for m in r['methods']:
                for o in m['over']:
                    self.over.setdefault(o, []).append((r['name'], m['key']))

    def bases(self, cls):
        out = []
        r = self.recs.get(cls)
        if r:
            for b in r['bases']:
                out.append(b)
                out += self.bases(b)
        return out

    def resolve_virtual(self, key, dyn):
        """most-derived override of `key` for dynamic class dyn"""
        todo = [key]
        best = key
        seen = set()
        while todo:
            k = todo.pop()
            for (c, m) in self.over.get(k, ()):
                if m in seen:
                    continue
                seen.add(m)
                if c == dyn or c in self.bases(dyn):
                    best = m
                    todo.append(m)
        return best


if __name__ == '__main__':
    import time
    t = time.time()
    p = Program()
    print(len(p.fns), 'functions', time.time() - t)
    un = {}

    def walk(o, f):
        if isinstance(o, list):
            for x in o: walk(x, f)
        elif isinstance(o, dict):
            if o.get('k') == 'unsup': un.setdefault(o['what'], []).append((f['name'], o.get('l')))
            for v in o.values():
                if isinstance(v, (dict, list)): walk(v, f)
    for f in p.fns.values(): walk(f, f)
    for k, v in un.items(): print(k, len(v), v[:4])
    for k in sorted(p.fns):
        if 'String::' not in k: print(k)
