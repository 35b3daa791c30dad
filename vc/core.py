"""Sorts, values, places and symbolic state of the contract verifier."""
import z3
from program import parse_type

INT_RANGES = {
    'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
    'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1),
    'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1),
    'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
    'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1),
    'wchar_t': (-2**31, 2**31 - 1), 'char32_t': (0, 2**32 - 1), 'char16_t': (0, 2**16 - 1),
}
STR_T = 'std::basic_string<char>'


_BADK = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT}


def patok(t, vs=None):
    """can t be used as (part of) a trigger"""
    if z3.is_pattern(t):
        return all(patok(c) for c in t.children())
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() in _BADK:
            return False
        todo.extend(x.children())
    return True


def FA(vs, body, *pats):
    """universal quantifier with those of the given triggers that the terms at hand allow"""
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    good = [p for p in pats if patok(p)]
    try:
        return z3.ForAll(list(vs), body, patterns=good)
    except z3.Z3Exception:
        return z3.ForAll(list(vs), body)


class BackIns:
    """std::back_insert_iterator over the container at `place`"""

    def __init__(self, place):
        self.place = place


class Unsupported(Exception):
    """the code uses a construct outside the verifier's reach (not a violation)"""


def short(n):
    return n[6:] if n.startswith('efsw::') else n


class World:
    """sort table; one per verification run (string mode 'U'ninterpreted or z3 'S'equences)."""

    def __init__(self, prog, smode='U', bv=False):
        self.prog = prog
        self.smode = smode
        self.bv = bv
        self.cache = {}
        self.Str = z3.StringSort() if smode == 'S' else z3.DeclareSort('Str')
        self.Int = z3.IntSort()
        self.Bool = z3.BoolSort()
        self.fields = {}   # datatype sort name -> list of (field, type)
        self.strconsts = {}
        self.value_classes = {'efsw::FileInfo', 'efsw::DirectorySnapshot', 'efsw::DirectorySnapshotDiff',
                              'efsw::WatcherOption', 'efsw_watcher_option', 'Event'}
        self.extern_recs = {
            'stat': [('st_mode', 'unsigned int'), ('st_uid', 'unsigned int'), ('st_gid', 'unsigned int'),
                     ('st_size', 'long'), ('st_ino', 'unsigned long'), ('st_dev', 'unsigned long'), ('st_mtim', 'timespec')],
            'timespec': [('tv_sec', 'long'), ('tv_nsec', 'long')],
            'timeval': [('tv_sec', 'long'), ('tv_usec', 'long')],
            'statfs': [('f_type', 'long')],
            'fd_set': [('dummy', 'int')],
            'rlimit': [('rlim_cur', 'unsigned long'), ('rlim_max', 'unsigned long')],
            'dirent': [('d_name', 'P<char>')],
            'mntent': [('mnt_dir', 'P<char>'), ('mnt_fsname', 'P<char>')],
            'inotify_event': [('wd', 'int'), ('mask', 'unsigned int'), ('cookie', 'unsigned int'), ('len', 'unsigned int'), ('name', 'P<char>')],
        }

    # ---- sorts
    def isint(self, t):
        return t in INT_RANGES and t != 'bool' or t.startswith('E<')

    def sort(self, t):
        s = self.cache.get(t)
        if s is None:
            s = self._sort(t)
            self.cache[t] = s
        return s

    def _sort(self, t):
        if t == 'bool':
            return self.Bool
        if self.isint(t):
            return self.Int
        if t in (STR_T, 'P<char>', 'Str'):
            return self.Str
        n, a = parse_type(t)
        if n == 'P':
            return self.Int
        if n in ('std::map', 'std::unordered_map'):
            nm = 'Map_%s_%s' % (self.tn(a[0]), self.tn(a[1]))
            return self._dt(nm, [('dom', z3.ArraySort(self.sort(a[0]), self.Bool)),
                                 ('val', z3.ArraySort(self.sort(a[0]), self.sort(a[1])))])
        if n == 'std::vector':
            nm = 'Vec_%s' % self.tn(a[0])
            return self._dt(nm, [('len', self.Int), ('data', z3.ArraySort(self.Int, self.sort(a[0])))])
        if n == 'std::pair':
            nm = 'Pair_%s_%s' % (self.tn(a[0]), self.tn(a[1]))
            return self._dt(nm, [('first', self.sort(a[0])), ('second', self.sort(a[1]))])
        if n in ('std::atomic',):
            return self.sort(a[0])
        if n in ('efsw::Atomic',):
            return self.sort(a[0])
        if t in self.value_classes and t in self.prog.recs:
            fs = self.prog.recs[t]['fields']
            types = self._ftypes(t)
            return self._dt(self.tn(t), [(f['n'], self.sort(types[f['n']])) for f in fs])
        if t in self.extern_recs:
            return self._dt('C_' + t, [(f, self.sort(x)) for f, x in self.extern_recs[t]])
        raise Unsupported('type ' + t)

    def _ftypes(self, rec):
        return {f['n']: f['t'] for f in self.prog.recs[rec]['fields']}

    def tn(self, t):
        if t == STR_T:
            return 'Str'
        for p in ('efsw::', 'std::'):
            t = t.replace(p, '')
        for a, b in (('<', '_'), ('>', ''), (',', '_'), (' ', ''), ('*', 'p'), ('(', ''), (')', '')):
            t = t.replace(a, b)
        return t

    def _dt(self, nm, fields):
        d = z3.Datatype(nm)
        d.declare('mk_' + nm, *[('%s_%s' % (nm, f), s) for f, s in fields])
        s = d.create()
        s._fields = None
        self.fields[nm] = [f for f, _ in fields]
        return s

    def acc(self, v, f):
        s = v.sort()
        i = self.fields[s.name()].index(f)
        # simplification: accessor over constructor
        if z3.is_app(v) and v.decl().eq(s.constructor(0)):
            return v.arg(i)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            pass
        return s.accessor(0, i)(v)

    def upd(self, v, f, x):
        s = v.sort()
        fs = self.fields[s.name()]
        return s.constructor(0)(*[x if g == f else self.acc(v, g) for g in fs])

    def mk(self, t, *args):
        return self.sort(t).constructor(0)(*args)

    # ---- strings
    def strlit(self, s):
        if self.smode == 'S':
            return z3.StringVal(s)
        if s not in self.strconsts:
            self.strconsts[s] = z3.Const('str"%s"' % s, self.Str)
        return self.strconsts[s]


class Ptr:
    """pointer to a place of value type"""
    __slots__ = ('place',)

    def __init__(self, place):
        self.place = place


class CStr:
    """const char*"""
    __slots__ = ('null', 's')

    def __init__(self, null, s):
        self.null = null
        self.s = s


class MapIter:
    def __init__(self, place, key, end, vis):
        self.place, self.key, self.end, self.vis = place, key, end, vis


class VecIter:
    def __init__(self, place, idx, rev=False):
        self.place, self.idx, self.rev = place, idx, rev


class Lam:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class LockObj:
    def __init__(self, name, n=1):
        self.name = name
        self.n = n


class Opaque:
    def __init__(self, what):
        self.what = what


class ListVal:
    def __init__(self, vals):
        self.vals = vals


class ObjRef:
    """lvalue of heap-class type"""

    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls


class Place:
    __slots__ = ('root', 'path', 't')

    def __init__(self, root, path=(), t=None):
        self.root, self.path, self.t = root, tuple(path), t

    def sub(self, el, t=None):
        return Place(self.root, self.path + (el,), t)

    def key(self):
        return (self.root[0],) + tuple(x if not z3.is_expr(x) else x.get_id() for x in self.root[1:]) + \
            tuple((e[0],) + tuple(x if not z3.is_expr(x) else x.get_id() for x in e[1:]) for e in self.path)

    def __repr__(self):
        return 'Place(%r,%r)' % (self.root, self.path)


class State:
    def __init__(self):
        self.h = {}
        self.env = {}
        self.pc = ()      # cons list: (parent, kind, formula)
        self.held = {}
        self.n = 0
        self.cursors = ()   # active loop cursors (innermost last)
        self.done = ()      # (place, cursor, entry state) of the loops that ran to their end, in order
        self.types = {}

    def copy(self):
        s = State()
        s.h = dict(self.h)
        s.env = dict(self.env)
        s.pc = self.pc
        s.held = dict(self.held)
        s.n = self.n
        s.cursors = self.cursors
        s.done = self.done
        s.types = self.types
        return s


def pc_list(pc):
    out = []
    while pc:
        out.append(pc)
        pc = pc[0]
    out.reverse()
    return out
