"""C01: DirectorySnapshot::scan classifies every difference exactly once."""
import os, z3
import fsmodel
from core import FA, Place, MapIter
from engine import Contract, And, Or, Not, If, Implies, T, F
from runner import Group, Task, Lemma

DS = 'efsw::DirectorySnapshot::'
LISTS = ['FilesCreated', 'DirsCreated', 'FilesModified', 'DirsModified', 'FilesDeleted', 'DirsDeleted', 'FilesMoved', 'DirsMoved']
Sel = z3.Select


class Vocab:
    """the terms of the specification for one world"""

    def __init__(self, w):
        self.w, self.fs = w, fsmodel.get(w)
        self.k, self.n = z3.Const('k?', w.Str), z3.Const('n?', w.Str)
        self.i, self.j = z3.Int('i?'), z3.Int('j?')

    def files(self, snap):
        return self.w.acc(snap, 'Files')

    def has(self, m, k):
        return Sel(self.w.acc(m, 'dom'), k)

    def at(self, m, k):
        return Sel(self.w.acc(m, 'val'), k)

    def dirpath(self, snap):
        return self.fs.adds(self.fs.g(self.w.acc(snap, 'DirectoryInfo'), 'Filepath'))

    def paths_ok(self, snap):
        k, f = self.k, self.files(snap)
        return FA(k, Implies(self.has(f, k), self.fs.g(self.at(f, k), 'Filepath') == self.w.lib.s.cat(self.dirpath(snap), k)), self.has(f, k), self.at(f, k))

    # the listing the poll observes
    def L(self, e, snap, k):
        return self.fs.isentry(e, self.dirpath(snap), k)

    def Lv(self, e, snap, k):
        return self.fs.info(e, self.w.lib.s.cat(self.dirpath(snap), k))

    def ordinary(self, v):
        return Or(self.fs.isreg(v), self.fs.isdir(v))


class Diff:
    """the eight lists of a diff value with the ghost maps between positions and names"""

    def __init__(self, vc, val, ghost):
        self.vc, self.v, self.ghost = vc, val, ghost
        self.w = vc.w

    def len(self, f):
        return self.w.acc(self.w.acc(self.v, f), 'len')

    def el(self, f, i):
        return Sel(self.w.acc(self.w.acc(self.v, f), 'data'), i)

    def src(self, f, i):
        return Sel(self.ghost(f, 'src'), i)

    def pos(self, f, k):
        return Sel(self.ghost(f, 'pos'), k)

    def posf(self, f, k):
        return Sel(self.ghost(f, 'posf'), k)

    def inpos(self, f, k):
        p = self.pos(f, k)
        return And(p >= 0, p < self.len(f), self.src(f, p) == k)

    def isfirst(self, f, k):
        p = self.posf(f, k)
        return And(p >= 0, p < self.len(f), self.w.acc(self.el(f, p), 'first') == k)


def enum(D, f, C, val, trig, moved=False):
    """list f enumerates exactly the names satisfying C, each once, with the given record"""
    vc = D.vc
    i, k = vc.i, vc.k
    x = D.el(f, i)
    if moved:
        x = D.w.acc(x, 'second')
    s = D.src(f, i)
    a = FA(i, Implies(And(i >= 0, i < D.len(f)), And(C(s), x == val(s), D.pos(f, s) == i)), D.el(f, i))
    b = FA(k, Implies(C(k), D.inpos(f, k)), *trig(k))
    return And(D.len(f) >= 0, a, b)


def ghostfun(e, strsort):
    """ghost position maps of the diff lists in the current state"""
    def g(field, kind):
        ks = [k for k in e.ghostinit if k[0] == kind and k[1][-1] == ('f', field)]
        for k in ks:
            if k in e.st.env:
                return e.st.env[k]
        I = z3.IntSort()
        srt = z3.ArraySort(I, strsort) if kind == 'src' else z3.ArraySort(strsort, I)
        return e.ghostinit[ks[0]] if ks else z3.Const('%s_none_%s' % (kind, field), srt)
    return g


def is_listing(m):
    """the value a directory listing returned (as opposed to a remembered map)"""
    return z3.is_const(m) and m.decl().name().startswith('ret_')


def find_diff(e, env):
    for k, v in env.items():
        if z3.is_expr(v) and v.sort().kind() == z3.Z3_DATATYPE_SORT and v.sort().name() == 'DirectorySnapshotDiff' and not (isinstance(k, tuple) and k[0] == 'tmp'):
            return k
    return None


def contracts(w):
    fs = fsmodel.get(w)
    vc = Vocab(w)
    cs = fsmodel.contracts(w)
    w.strlit('')
    g = fs.g
    has, at = vc.has, vc.at

    def in_state(e, st, f):
        cur = e.st
        e.st = st
        try:
            return f()
        finally:
            e.st = cur

    # ---- vocabulary of one scan: O remembered, L observed, F remembered now
    def spec(c_old, c_new, D, ep, done=None):
        pass

    class Case:
        def __init__(s, O, ep, snap):
            s.O, s.ep, s.snap = O, ep, snap
            s.D = vc.dirpath(snap)

        def inL(s, k):
            return fs.isentry(s.ep, s.D, k)

        def lv(s, k):
            return fs.info(s.ep, w.lib.s.cat(s.D, k))

        def tL(s, k):
            return [Sel(fs.ents(s.ep, s.D), k)]

        def tO(s, k):
            return [s.inO(k)]

        def inO(s, k):
            return has(s.O, k)

        def ov(s, k):
            return at(s.O, k)

        def new(s, k):
            return And(s.inL(k), Not(s.inO(k)), vc.ordinary(s.lv(k)))

        def mod(s, k):
            return And(s.inL(k), s.inO(k), Not(fs.same(s.ov(k), s.lv(k))))

    # ---- loop invariants (stated for the loop over the observed listing and for the loop over the remaining names)
    def loop1(part):
        def f(lc):
            e = lc.e
            cur = lc.cursor
            if not isinstance(cur, MapIter):
                return None
            env, en = lc.cur.env, lc.entry.env
            if 'thisobj' not in env:
                return None
            snap0 = e.snap0
            dk = find_diff(e, env)
            if dk is None:
                return None
            M = e.read_in(lc.entry, cur.place)
            if not is_listing(M):
                return None
            S = Case(vc.files(snap0), lc.init('$epoch'), snap0)
            Fn = vc.files(env['thisobj'])
            D = Diff(vc, env[dk], lambda a, b: in_state(e, lc.cur, lambda: ghostfun(e, w.Str)(a, b)))
            k, i, j = vc.k, vc.i, vc.j
            vis = lambda x: Sel(cur.vis, x)
            changed = w.acc(env[dk], 'DirChanged')
            islist = FA(k, has(M, k) == S.inL(k), has(M, k))
            if part == 'listing':
                return And(islist, FA(k, Implies(S.inL(k), at(M, k) == S.lv(k)), at(M, k)))
            if part == 'dirinfo':
                return w.acc(env['thisobj'], 'DirectoryInfo') == w.acc(en['thisobj'], 'DirectoryInfo')
            kd = {'Files': lambda x: Not(fs.isdir(S.lv(x))), 'Dirs': lambda x: fs.isdir(S.lv(x))}
            sv = lambda x: And(S.inL(x), vis(x))
            if part == 'files-dom':
                return FA(k, And(Implies(S.inL(k), has(Fn, k) == Or(S.inO(k), And(vis(k), S.new(k)))), Implies(And(Not(S.inL(k)), has(Fn, k)), S.inO(k))), has(Fn, k))
            if part == 'files-val':
                return FA(k, And(Implies(And(S.inL(k), S.inO(k)), at(Fn, k) == If(And(vis(k), S.mod(k)), S.lv(k), S.ov(k))),
                                 Implies(And(S.new(k), vis(k)), at(Fn, k) == S.lv(k)),
                                 Implies(And(Not(S.inL(k)), has(Fn, k)), at(Fn, k) == S.ov(k))), at(Fn, k), has(Fn, k))
            if part == 'copy':
                ms = [kk for kk, v in env.items() if z3.is_expr(v) and v.sort() == M.sort() and not isinstance(kk, tuple) and kk != cur.place.root[1]]
                if len(ms) != 1:
                    return None
                Y = env[ms[0]]
                return FA(k, And(has(Y, k) == And(changed, S.inO(k), Not(vis(k)), has(Fn, k)), Implies(has(Y, k), at(Y, k) == S.ov(k))), has(Y, k))
            if part.startswith('mod'):
                f_ = part[3:] + 'Modified'
                return enum(D, f_, lambda x: And(S.mod(x), vis(x), kd[part[3:]](x)), S.lv, S.tL)
            if part.startswith('new'):
                # created and moved together enumerate the new names, each in one of the two lists
                K = part[3:]
                c_, m_ = K + 'Created', K + 'Moved'
                new = lambda x: And(S.new(x), vis(x), kd[K](x))
                a = FA(i, Implies(And(i >= 0, i < D.len(c_)), And(new(D.src(c_, i)), D.el(c_, i) == S.lv(D.src(c_, i)), D.pos(c_, D.src(c_, i)) == i)), D.el(c_, i), D.src(c_, i))
                x = D.el(m_, i)
                b = FA(i, Implies(And(i >= 0, i < D.len(m_)), And(new(D.src(m_, i)), w.acc(x, 'second') == S.lv(D.src(m_, i)), D.pos(m_, D.src(m_, i)) == i)), D.el(m_, i), D.src(m_, i))
                c = FA(k, Implies(new(k), z3.Xor(D.inpos(c_, k), D.inpos(m_, k))), *S.tL(k))
                return And(D.len(c_) >= 0, D.len(m_) >= 0, a, b, c)
            if part.startswith('src'):
                K = part[3:]
                m_ = K + 'Moved'
                o = w.acc(D.el(m_, i), 'first')
                return FA(i, Implies(And(i >= 0, i < D.len(m_)), And(S.inO(o), Not(S.inL(o)), Not(has(Fn, o)), g(S.ov(o), 'Inode') == g(S.lv(D.src(m_, i)), 'Inode'), fs.isdir(S.ov(o)) == fs.isdir(S.lv(D.src(m_, i))),
                                                                         D.posf(m_, o) == i)), D.el(m_, i))
            if part == 'consumed':
                return FA(k, Implies(And(S.inO(k), Not(S.inL(k)), Not(has(Fn, k))), z3.Xor(D.isfirst('FilesMoved', k), D.isfirst('DirsMoved', k))), has(Fn, k))
            return None
        f.__name__ = part
        return f

    def loop2(part):
        """over the names that remain: they are reported as deleted and forgotten"""
        def f(lc):
            e = lc.e
            cur = lc.cursor
            if not isinstance(cur, MapIter):
                return None
            env, en = lc.cur.env, lc.entry.env
            if 'thisobj' not in env:
                return None
            snap0 = e.snap0
            dk = find_diff(e, env)
            if dk is None:
                return None
            M = e.read_in(lc.entry, cur.place)
            if is_listing(M) or cur.place.root[1] == 'thisobj' and not z3.simplify(M == vc.files(snap0)).eq(T):
                return None
            Fe, Fn = vc.files(en['thisobj']), vc.files(env['thisobj'])
            D = Diff(vc, env[dk], lambda a, b: in_state(e, lc.cur, lambda: ghostfun(e, w.Str)(a, b)))
            k = vc.k
            vis = lambda x: Sel(cur.vis, x)
            if part == 'forgotten':
                return FA(k, And(has(Fn, k) == And(has(Fe, k), Not(vis(k))), Implies(has(Fn, k), at(Fn, k) == at(Fe, k))), has(Fn, k), at(Fn, k))
            if part == 'kept':
                return w.acc(env['thisobj'], 'DirectoryInfo') == w.acc(en['thisobj'], 'DirectoryInfo')
            kd = {'Files': lambda x: Not(fs.isdir(at(M, x))), 'Dirs': lambda x: fs.isdir(at(M, x))}
            f_ = part[3:] + 'Deleted'
            return enum(D, f_, lambda x: And(has(M, x), vis(x), kd[part[3:]](x)), lambda x: at(M, x), lambda x: [has(M, x)])
        f.__name__ = 'rest:' + part
        return f

    loops = tuple(loop1(p) for p in ('listing', 'dirinfo', 'files-dom', 'files-val', 'copy', 'modFiles', 'modDirs', 'newFiles', 'newDirs', 'srcFiles', 'srcDirs', 'consumed')) + \
        tuple(loop2(p) for p in ('forgotten', 'kept', 'delFiles', 'delDirs'))

    def post(c):
        e = c.e
        ep = c.old('$epoch')
        snap0, snap = c.othis, c.nthis
        S = Case(vc.files(snap0), ep, snap0)
        Fn = vc.files(snap)
        DI = w.acc(snap0, 'DirectoryInfo')
        cur = fs.info(ep, g(DI, 'Filepath'))
        exists = fs.ok[''](ep, fs._strip1(g(cur, 'Filepath')))
        if getattr(c, 'check', False):
            gf = ghostfun(e, w.Str)
        else:
            fresh = {}

            def gf(a, b):
                if (a, b) not in fresh:
                    I = z3.IntSort()
                    fresh[(a, b)] = e.fresh('%s_%s' % (b, a), z3.ArraySort(I, w.Str) if b == 'src' else z3.ArraySort(w.Str, I))
                return fresh[(a, b)]
        D = Diff(vc, c.res, gf)
        changed = Not(fs.same(DI, cur))
        k, i, j = vc.k, vc.i, vc.j
        out = [('the directory counts as changed exactly when its own record differs', w.acc(c.res, 'DirChanged') == changed),
               ("the directory's own record is remembered", And(fs.same(w.acc(snap, 'DirectoryInfo'), cur), g(w.acc(snap, 'DirectoryInfo'), 'Filepath') == g(DI, 'Filepath'))),
               ('remembered records keep their paths', vc.paths_ok(snap))]
        kdl = {'Files': lambda x: Not(fs.isdir(S.lv(x))), 'Dirs': lambda x: fs.isdir(S.lv(x))}
        kdo = {'Files': lambda x: Not(fs.isdir(S.ov(x))), 'Dirs': lambda x: fs.isdir(S.ov(x))}
        src = lambda x: Or(D.isfirst('FilesMoved', x), D.isfirst('DirsMoved', x))
        for K in ('Files', 'Dirs'):
            c_, m_, M_, d_ = K + 'Created', K + 'Moved', K + 'Modified', K + 'Deleted'
            out.append(('%s: exactly the surviving entries whose record differs, each once' % M_, enum(D, M_, lambda x: And(exists, S.mod(x), kdl[K](x)), S.lv, S.tL)))
            new = lambda x: And(exists, S.new(x), kdl[K](x))
            x = D.el(m_, i)
            o = w.acc(x, 'first')
            out.append(('%s: only new entries, each once' % c_, FA(i, Implies(And(i >= 0, i < D.len(c_)), And(new(D.src(c_, i)), D.el(c_, i) == S.lv(D.src(c_, i)), D.pos(c_, D.src(c_, i)) == i)), D.el(c_, i), D.src(c_, i))))
            out.append(('%s: only new entries, each once' % m_, FA(i, Implies(And(i >= 0, i < D.len(m_)), And(new(D.src(m_, i)), w.acc(x, 'second') == S.lv(D.src(m_, i)), D.pos(m_, D.src(m_, i)) == i)), D.el(m_, i), D.src(m_, i))))
            out.append(('%s: every new entry is reported as created or as moved, never both' % K, FA(k, Implies(new(k), z3.Xor(D.inpos(c_, k), D.inpos(m_, k))), *S.tL(k))))
            out.append(('%s: a move comes from a name that vanished, has the same inode and kind and is used once' % m_,
                        FA(i, Implies(And(i >= 0, i < D.len(m_)), And(S.inO(o), Not(S.inL(o)), g(S.ov(o), 'Inode') == g(S.lv(D.src(m_, i)), 'Inode'), fs.isdir(S.ov(o)) == fs.isdir(S.lv(D.src(m_, i))), D.posf(m_, o) == i)), D.el(m_, i))))
            gone = lambda x: And(S.inO(x), Or(Not(exists), And(changed, Not(S.inL(x)), Not(src(x)))), kdo[K](x))
            out.append(('%s: exactly the vanished entries that were not moved, each once' % d_, enum(D, d_, gone, S.ov, S.tO)))
        out.append(('no name is the source of both a file and a directory move', FA(k, Not(And(D.isfirst('FilesMoved', k), D.isfirst('DirsMoved', k))), D.posf('FilesMoved', k), D.posf('DirsMoved', k))))
        out.append(('remembered names are the observed ones', FA(k, has(Fn, k) == And(exists, If(S.inL(k), Or(S.inO(k), S.new(k)), And(S.inO(k), Not(changed), Not(src(k))))), has(Fn, k))))
        out.append(('remembered records are the observed ones', FA(k, Implies(has(Fn, k), If(S.inL(k), fs.same(at(Fn, k), S.lv(k)), at(Fn, k) == S.ov(k))), at(Fn, k), has(Fn, k))))
        return out

    def req(c):
        c.e.snap0 = c.othis
        p = g(w.acc(c.othis, 'DirectoryInfo'), 'Filepath')
        return [('remembered records carry their paths', vc.paths_ok(c.othis)), ('the path has no doubled trailing separator', fs._norm(p) == p)]
    cs.append(Contract(DS + 'scan', 0, modifies=('this', '$rdvis', fsmodel.DIRT), requires=req, ensures=post, loops=loops))

    # ---- the functions that fill and edit the remembered names
    ep = lambda c: c.old('$epoch')

    def setinfo(c):
        i = fs.info(ep(c), c.a(0))
        return [("the directory's own record is taken", w.acc(c.nthis, 'DirectoryInfo') == i), ('the names stay', vc.files(c.nthis) == vc.files(c.othis))]
    cs.append(Contract(DS + 'setDirectoryInfo', 1, modifies=('this',), ensures=setinfo))

    def filled(e, snap):
        k, f = vc.k, vc.files(snap)
        d = vc.dirpath(snap)
        v = fs.info(e, w.lib.s.cat(d, k))
        return [('exactly the regular files and directories are remembered', FA(k, has(f, k) == And(fs.isentry(e, d, k), vc.ordinary(v)), has(f, k), Sel(fs.ents(e, d), k))),
                ('each with its own record', FA(k, Implies(has(f, k), at(f, k) == v), has(f, k), at(f, k)))]

    def ivec(env):
        m = [(kk, v) for kk, v in env.items() if z3.is_expr(v) and v.sort().name() == 'Vec_Str' and not (isinstance(kk, tuple) and kk[0] == 'tmp')]
        return m[0][1] if m else None

    def erased(lc):
        """the names put aside are the other kinds; afterwards they are gone"""
        env, cur = lc.cur.env, lc.cursor
        v = ivec(env)
        if v is None or 'thisobj' not in env:
            return None
        k, i = vc.k, vc.i
        ln, el = w.acc(v, 'len'), lambda j: Sel(w.acc(v, 'data'), j)
        if isinstance(cur, MapIter):
            f = lc.e.read_in(lc.cur, cur.place)
            vis = lambda x: Sel(cur.vis, x)
            ps = [x for kk, x in env.items() if isinstance(kk, tuple) and kk[0] == 'pos']
            if not ps:
                return None
            pos = lambda x: Sel(ps[0], x)
            return And(ln >= 0, FA(i, Implies(And(i >= 0, i < ln), And(has(f, el(i)), Not(vc.ordinary(at(f, el(i)))))), el(i)),
                       FA(k, Implies(And(has(f, k), vis(k), Not(vc.ordinary(at(f, k)))), And(pos(k) >= 0, pos(k) < ln, el(pos(k)) == k)), has(f, k)))
        fe, fn = vc.files(lc.entry.env['thisobj']), vc.files(env['thisobj'])
        ix = getattr(cur, 'idx', None)
        if ix is None:
            return None
        ps = [x for kk, x in env.items() if isinstance(kk, tuple) and kk[0] == 'pos']
        if not ps:
            return None
        pos = lambda x: Sel(ps[0], x)
        return FA(k, And(has(fn, k) == And(has(fe, k), Not(And(pos(k) >= 0, pos(k) < ix, pos(k) < ln, el(pos(k)) == k))), Implies(has(fn, k), at(fn, k) == at(fe, k))), has(fn, k), at(fn, k))
    def inrange(lc):
        ix = getattr(lc.cursor, 'idx', None)
        v = ivec(lc.cur.env)
        if ix is None or v is None:
            return None
        return And(ix >= 0, ix <= w.acc(v, 'len'))
    def listed(lc):
        env = lc.cur.env
        if 'thisobj' not in env:
            return None
        return w.acc(env['thisobj'], 'DirectoryInfo') == w.acc(lc.entry.env['thisobj'], 'DirectoryInfo')
    cs.append(Contract(DS + 'initFiles', 0, modifies=('this', '$rdvis', fsmodel.DIRT), loops=(erased, inrange, listed),
                       ensures=lambda c: filled(ep(c), c.nthis) + [("the directory's own record stays", w.acc(c.nthis, 'DirectoryInfo') == w.acc(c.othis, 'DirectoryInfo'))]))
    cs.append(Contract(DS + 'init', 1, modifies=('this', '$rdvis', fsmodel.DIRT),
                       ensures=lambda c: filled(ep(c), c.nthis) + [("the directory's own record is taken", w.acc(c.nthis, 'DirectoryInfo') == fs.info(ep(c), c.a(0)))]))
    fname = lambda p: fs._fname(p)

    def edit(kind):
        def f(c):
            o, n, k = vc.files(c.othis), vc.files(c.nthis), vc.k
            if kind == 'add':
                a = fname(c.a(0))
                dom, val = (lambda x: Or(has(o, x), x == a)), (lambda x: If(x == a, fs.info(ep(c), c.a(0)), at(o, x)))
            elif kind == 'remove':
                a = fname(c.a(0))
                dom, val = (lambda x: And(has(o, x), x != a)), (lambda x: at(o, x))
            else:
                a, b = fname(c.a(0)), fname(c.a(1))
                dom, val = (lambda x: Or(And(has(o, x), x != a), x == b)), (lambda x: If(x == b, fs.info(ep(c), c.a(1)), at(o, x)))
            return [('exactly that name is affected', FA(k, has(n, k) == dom(k), has(n, k), has(o, k))), ('with its own record', FA(k, Implies(has(n, k), at(n, k) == val(k)), has(n, k), at(n, k))),
                    ("the directory's own record stays", w.acc(c.nthis, 'DirectoryInfo') == w.acc(c.othis, 'DirectoryInfo'))]
        return f
    cs.append(Contract(DS + 'addFile', 1, modifies=('this',), ensures=edit('add')))
    cs.append(Contract(DS + 'updateFile', 1, modifies=('this',), ensures=edit('add')))
    cs.append(Contract(DS + 'removeFile', 1, modifies=('this',), ensures=edit('remove')))
    cs.append(Contract(DS + 'moveFile', 2, modifies=('this',), ensures=edit('move')))
    cs.append(Contract('efsw::DirectorySnapshotDiff::changed', 0, result=lambda c: Or(*[w.acc(w.acc(c.othis, f), 'len') != 0 for f in LISTS])))
    cs.append(Contract('efsw::DirectorySnapshotDiff::clear', 0, modifies=('this',), ensures=lambda c: [('all lists are empty', And(*[w.acc(w.acc(c.nthis, f), 'len') == 0 for f in LISTS]))]))
    return cs


def axioms(w):
    fs = fsmodel.get(w)
    w.strlit('')
    return fs.axioms()


def mods(w):
    return fsmodel.models(w, fsmodel.get(w))


OPTS = {'mem': True, 'feas_facts': 60, 'debug': bool(os.environ.get('VDEBUG'))}
G = Group('scan', contracts, models=mods, ghosts=fsmodel.ghosts, axioms=axioms, opts=OPTS)
TASKS = [Task(G, DS + 'scan')] + [Task(G, DS + n) for n in ('setDirectoryInfo', 'initFiles', 'init', 'addFile', 'updateFile', 'removeFile', 'moveFile')] + \
    [Task(G, 'efsw::DirectorySnapshotDiff::' + n) for n in ('changed', 'clear')]
