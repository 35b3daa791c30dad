"""Trusted model of the operating system's file interface: one set of facts per
moment ($epoch); stat/lstat/realpath/opendir/readdir/statfs report these facts."""
import z3
from core import FA, CStr, Ptr, Place, Opaque, Unsupported
from engine import Contract, And, Or, Not, If, Implies, T, F

U32, U64 = 2**32, 2**64
S_IFMT, S_IFDIR, S_IFREG, S_IFLNK, S_IRUSR = 0o170000, 0o040000, 0o100000, 0o120000, 0o400
FIELDS = ('ModificationTime', 'Size', 'OwnerId', 'GroupId', 'Permissions', 'Inode')
GHOSTS = {'$epoch': z3.IntSort()}
DIRT = '$dirpath'


class FSM:
    def __init__(self, w):
        self.w = w
        I, S, B = w.Int, w.Str, w.Bool
        fn = z3.Function
        self.ok = {k: fn(k + 'stat_ok', I, S, B) for k in ('', 'l')}
        self.f = {k: {x: fn(k + 'stat_' + x, I, S, I) for x in FIELDS} for k in ('', 'l')}
        self.rp_ok, self.rp = fn('realpath_ok', I, S, B), fn('realpath', I, S, S)
        self.dir_ok = fn('opendir_ok', I, S, B)
        self.ents = fn('entries', I, S, z3.ArraySort(S, B))
        self.sfs_ok, self.sfs = fn('statfs_ok', I, S, B), fn('statfs_type', I, S, I)
        self.local_fuse = fn('local_fuse', I, S, B)
        self.isroot = z3.Const('running_as_root', B)
        self.FI = w.sort('efsw::FileInfo')
        if w.smode != 'S':
            self._strip1, self._norm, self._adds, self._ends = fn('strip1', S, S), fn('norm', S, S), fn('adds', S, S), fn('ends', S, B)
            self._strip = fn('strip', S, S)
            self._fname, self._pdir = fn('filename', S, S), fn('parentdir', S, S)
            self._info = {k: fn(k + 'info', I, S, self.FI) for k in ('', 'l')}

    # ---- path functions (defined exactly over sequences; see s_paths for the functions that compute them)
    def ends(self, s):
        if self.w.smode == 'S':
            return And(z3.Length(s) > 0, z3.SubString(s, z3.Length(s) - 1, 1) == z3.StringVal('/'))
        return self._ends(s)

    def strip(self, s):
        return If(self.ends(s), z3.SubString(s, 0, z3.Length(s) - 1), s) if self.w.smode == 'S' else self._strip(s)

    def adds(self, s):
        if self.w.smode == 'S':
            return If(And(z3.Length(s) > 0, Not(self.ends(s))), z3.Concat(s, z3.StringVal('/')), s)
        return self._adds(s)

    def strip1(self, s):
        if self.w.smode == 'S':
            return If(z3.Length(s) > 1, self.strip(s), s)
        return self._strip1(s)

    def norm(self, s):
        if self.w.smode == 'S':
            return If(And(z3.Length(s) > 1, self.ends(s)), self.adds(self.strip(s)), s)
        return self._norm(s)

    # ---- records
    def mk(self, k, e, p):
        """the record of path p: what the system reports, or zeros"""
        q = self.strip1(p)
        v = lambda x: If(self.ok[k](e, q), self.conv(x, self.f[k][x](e, q)), z3.IntVal(0))
        vals = {x: v(x) for x in FIELDS}
        vals['Filepath'] = self.norm(p)
        return self.FI.constructor(0)(*[vals[x] for x in self.w.fields[self.FI.name()]])

    def conv(self, x, v):
        if x in ('ModificationTime', 'Size'):
            return If(v < 0, v + U64, v)
        return v

    def info(self, e, p, link=False):
        k = 'l' if link else ''
        return self.mk(k, e, p) if self.w.smode == 'S' else self._info[k](e, p)

    def g(self, v, f):
        return self.w.acc(v, f)

    def kind(self, v):
        return self.w.lib.band(self.w.eng, self.g(v, 'Permissions'), z3.IntVal(S_IFMT))

    def isdir(self, v):
        return self.kind(v) == S_IFDIR

    def isreg(self, v):
        return self.kind(v) == S_IFREG

    def islnk(self, v):
        return self.kind(v) == S_IFLNK

    def readable(self, v):
        return Or(self.isroot, self.w.lib.band(self.w.eng, self.g(v, 'Permissions'), z3.IntVal(S_IRUSR)) != 0)

    def same(self, a, b):
        return And(*[self.g(a, x) == self.g(b, x) for x in FIELDS])

    def remote(self, e, p):
        t = self.sfs(e, p)
        return And(self.sfs_ok(e, p), Or(*[t == m for m in MAGIC], And(t == FUSEBLK, Not(self.local_fuse(e, p)))))

    def listing(self, e, d):
        """map value of a directory listing (d ends in a separator)"""
        w = self.w
        t = w.sort('std::map<std::basic_string<char>,efsw::FileInfo>')
        return t

    def isentry(self, e, d, k):
        return And(self.dir_ok(e, d), z3.Select(self.ents(e, d), k), k != self.w.strlit('.'), k != self.w.strlit('..'))

    def axioms(self):
        w = self.w
        w.strlit('.'), w.strlit('..'), w.strlit('')
        out = []
        if w.smode == 'S':
            return out
        e, p, k = z3.Int('e?'), z3.Const('p?', w.Str), z3.Const('k?', w.Str)
        st = w.lib.s
        for kk in ('', 'l'):
            i = self._info[kk](e, p)
            q = self._strip1(p)
            out.append(z3.ForAll([e, p], And(self.g(i, 'Filepath') == self._norm(p),
                       *[self.g(i, x) == If(self.ok[kk](e, q), self.conv(x, self.f[kk][x](e, q)), 0) for x in FIELDS]), patterns=[i]))
        # theorems over byte strings, checked in S mode by the lemma tasks of s_fileinfo
        out.append(z3.ForAll([e, p, k], Implies(self.isname(e, p, k), And(self._norm(st._cat(p, k)) == st._cat(p, k), self._strip1(st._cat(p, k)) == st._cat(p, k))),
                             patterns=[z3.MultiPattern(z3.Select(self.ents(e, p), k), st._cat(p, k))]))
        out.append(z3.ForAll([p], And(self._ends(self._adds(p)) == (p != w.strlit('')), self._adds(self._adds(p)) == self._adds(p),
                                      self._strip(self._adds(p)) == self._strip(p)), patterns=[self._adds(p)]))
        return out

    def isname(self, e, p, k):
        """directory entries are non-empty and contain no separator"""
        return z3.Select(self.ents(e, p), k)


MAGIC = [0x5346414F, 0x61756673, 0x00C36400, 0xFF534D42, 0x73757245, 0x19830326, 0x65735543, 0x01161970, 0x47504653, 0x6B414653, 0x0BD00BD0,
         0x564C, 0x6969, 0x6E667364, 0x7461636F, 0xAAD7AAEA, 0x50495045, 0x517B, 0xBEEFDEAD, 0xBACBACBC, 0xA501FCF5]
FUSEBLK = 0x65735546


def models(w, fs):
    def stat(k):
        def m(e, this, args, n):
            ep, p = e.hget('$epoch'), args[0].s
            r = e.fresh(k + 'stat', w.Int)
            ok = fs.ok[k](ep, p)
            e.fact(ok == (r == 0))
            e.fact(Or(r == 0, r == -1))
            fld = fs.f[k]
            st = e.freshval('statbuf', 'stat')
            names = {'st_mode': 'Permissions', 'st_uid': 'OwnerId', 'st_gid': 'GroupId', 'st_size': 'Size', 'st_ino': 'Inode'}
            for a, b in names.items():
                v = fld[b](ep, p)
                e.range(v, dict(w.extern_recs['stat'])[a])
                e.fact(Implies(ok, w.acc(st, a) == v))
            v = fld['ModificationTime'](ep, p)
            e.range(v, 'long')
            e.fact(Implies(ok, w.acc(w.acc(st, 'st_mtim'), 'tv_sec') == v))
            e.write(args[1].place, st)
            return r
        return m

    def realpath(e, this, args, n):
        ep, p = e.hget('$epoch'), args[0].s
        return CStr(Not(fs.rp_ok(ep, p)), fs.rp(ep, p))

    def opendir(e, this, args, n):
        ep, p = e.hget('$epoch'), args[0].s
        r = e.fresh('DIR', w.Int)
        e.fact((r != 0) == fs.dir_ok(ep, p))
        e.hset(DIRT, p)
        e.hset('$rdvis', z3.K(w.Str, F))
        return r

    def readdir(e, this, args, n):
        e.oblige('readdir on an open directory', args[0] != 0, ('mem',))
        vis, p, ep = e.hget('$rdvis'), e.hget(DIRT), e.hget('$epoch')
        more = e.fresh('more', w.Bool)
        k = z3.Const('k?', w.Str)
        es = fs.ents(ep, p)
        if e.branch(more):
            name = e.fresh('entry', w.Str)
            e.fact(And(z3.Select(es, name), Not(z3.Select(vis, name))))
            e.hset('$rdvis', z3.Store(vis, name, T))
            return Ptr(e.newtmp(w.sort('dirent').constructor(0)(name)))
        e.fact(FA(k, Implies(z3.Select(es, k), z3.Select(vis, k)), z3.Select(es, k)))
        return z3.IntVal(0)

    def closedir(e, this, args, n):
        e.oblige('closedir on an open directory', args[0] != 0, ('mem',))
        return z3.IntVal(0)

    def statfs(e, this, args, n):
        ep, p = e.hget('$epoch'), args[0].s
        r = e.fresh('statfs', w.Int)
        e.fact(fs.sfs_ok(ep, p) == (r == 0))
        buf = e.freshval('statfsbuf', 'statfs')
        e.fact(Implies(r == 0, w.acc(buf, 'f_type') == fs.sfs(ep, p)))
        e.fact(And(fs.sfs(ep, p) >= 0, fs.sfs(ep, p) < U32))
        e.write(args[1].place, buf)
        return r

    def static(e, d):
        e.st.env[d['id']] = e.ev(d['init'])
        e.st.types[d['id']] = (d['t'], d['n'])

    def getuid(e, this, args, n):
        u = z3.Const('uid', w.Int)
        e.fact((u == 0) == fs.isroot)
        return u
    return {'stat': stat(''), 'lstat': stat('l'), 'realpath': realpath, 'opendir': opendir, 'readdir': readdir, 'closedir': closedir,
            'statfs': statfs, '$static': static, 'getuid': getuid}


def ghosts(w):
    return {'$epoch': w.Int, DIRT: w.Str, '$rdvis': z3.ArraySort(w.Str, w.Bool)}


_made = {}


def get(w):
    if not hasattr(w, 'fsm'):
        w.fsm = FSM(w)
    return w.fsm


def contracts(w):
    """contracts of FileInfo and of the file-system helpers, in either string mode"""
    fs = get(w)
    FI, P = 'efsw::FileInfo::', 'efsw::Platform::FileSystem::'
    cs = []
    ep = lambda c: c.old('$epoch')
    g = fs.g

    def C(name, ar, **kw):
        cs.append(Contract(name, ar, **kw))
    C(FI + 'inodeSupported', 0, result=lambda c: T)
    zero = lambda c: c.w.upd(c.nthis, 'Filepath', c.w.strlit(''))
    C(FI + '<ctor>', 0, modifies=('this',), ensures=lambda c: [
        ('%s is zero' % x, g(c.nthis, x) == 0) for x in FIELDS] + [('no path', g(c.nthis, 'Filepath') == w.strlit(''))])

    def rec(link):
        def f(c):
            i = fs.info(ep(c), c.a(0), link(c) if callable(link) else link)
            return [('%s is what the system reported, or zero' % x if x != 'Filepath' else 'the path is kept', g(c.nthis, x) == g(i, x)) for x in FIELDS + ('Filepath',)] + [('the whole record', c.nthis == i)]
        return f

    def rec2(c):
        a, b = fs.info(ep(c), c.a(0), True), fs.info(ep(c), c.a(0), False)
        return [('%s: of the link when asked, else of its target' % x, g(c.nthis, x) == If(c.a(1), g(a, x), g(b, x))) for x in FIELDS + ('Filepath',)] + [('the whole record', c.nthis == If(c.a(1), a, b))]
    C(FI + '<ctor>', 1, modifies=('this',), ensures=rec(False))
    C(FI + '<ctor>', 2, modifies=('this',), ensures=rec2)
    if w.smode == 'S':
        def get_(k):
            def f(c):
                q = fs.strip1(g(c.othis, 'Filepath'))
                return [('%s is read when the system reports it, else left' % x, g(c.nthis, x) == If(fs.ok[k](ep(c), q), fs.conv(x, fs.f[k][x](ep(c), q)), g(c.othis, x))) for x in FIELDS] + \
                    [('the path is kept', g(c.nthis, 'Filepath') == fs.norm(g(c.othis, 'Filepath')))]
            return f
        C(FI + 'getInfo', 0, modifies=('this',), ensures=get_(''))
        C(FI + 'getRealInfo', 0, modifies=('this',), ensures=get_('l'))
        from s_paths import contracts as pc
        for x in pc(w):
            if x.name.rsplit('::', 1)[1] in ('slashAtEnd', 'dirAddSlashAtEnd', 'dirRemoveSlashAtEnd', 'getOSSlash', 'pathRemoveFileName'):
                cs.append(x)
    else:
        C('efsw::FileSystem::slashAtEnd', 1, result=lambda c: fs.ends(c.a(0)))
        C('efsw::FileSystem::dirAddSlashAtEnd', 1, modifies=('arg:0',), ensures=lambda c: [('', c.a2(0) == fs.adds(c.a(0)))])
        C('efsw::FileSystem::dirRemoveSlashAtEnd', 1, modifies=('arg:0',), ensures=lambda c: [('', c.a2(0) == fs.strip(c.a(0)))])
        C('efsw::FileSystem::fileNameFromPath', 1, modifies=('arg:0',), result=lambda c: fs._fname(c.a(0)))
        C('efsw::FileSystem::pathRemoveFileName', 1, modifies=('arg:0',), result=lambda c: fs._pdir(c.a(0)))
        C('efsw::FileSystem::getOSSlash', 0, result=lambda c: z3.IntVal(47))
    C(FI + 'exists', 0, modifies=('this',), result=lambda c: fs.ok[''](ep(c), fs.strip1(g(c.othis, 'Filepath'))),
      ensures=lambda c: [('only asks', c.nthis == w.upd(c.othis, 'Filepath', fs.norm(g(c.othis, 'Filepath'))))])
    C(FI + 'exists', 1, result=lambda c: fs.ok[''](ep(c), fs.strip1(fs.norm(c.a(0)))))
    C(FI + 'isLink', 1, result=lambda c: fs.islnk(fs.info(ep(c), c.a(0), True)))
    C(FI + 'isLink', 0, result=lambda c: fs.islnk(c.othis))
    C(FI + 'isDirectory', 0, result=lambda c: fs.isdir(c.othis))
    C(FI + 'isRegularFile', 0, result=lambda c: fs.isreg(c.othis))
    C(FI + 'isReadable', 0, result=lambda c: fs.readable(c.othis))
    C(FI + 'linksTo', 0, result=lambda c: If(And(fs.islnk(c.othis), fs.rp_ok(ep(c), g(c.othis, 'Filepath'))), fs.rp(ep(c), g(c.othis, 'Filepath')), w.strlit('')))
    C(FI + 'operator==', 1, result=lambda c: fs.same(c.othis, c.a(0)))
    C(FI + 'operator!=', 1, result=lambda c: Not(fs.same(c.othis, c.a(0))))
    C(FI + 'sameInode', 1, result=lambda c: g(c.othis, 'Inode') == g(c.a(0), 'Inode'))
    C(FI + 'operator=', 1, modifies=('this',), ensures=lambda c: [('%s copied' % x, g(c.nthis, x) == g(c.a(0), x)) for x in FIELDS + ('Filepath',)] + [('the whole record copied', c.nthis == c.a(0))], returns_this=True)
    C(P + 'isDirectory', 1, result=lambda c: And(fs.ok[''](ep(c), c.a(0)), w.lib.band(w.eng, fs.f[''] ['Permissions'](ep(c), c.a(0)), z3.IntVal(S_IFMT)) == S_IFDIR))
    C('efsw::FileSystem::isDirectory', 1, result=lambda c: And(fs.ok[''](ep(c), c.a(0)), w.lib.band(w.eng, fs.f['']['Permissions'](ep(c), c.a(0)), z3.IntVal(S_IFMT)) == S_IFDIR))

    def lst(adds):
        def f(c):
            d = fs.adds(c.a(0)) if adds else c.a(0)
            k = z3.Const('k?', w.Str)
            dom, val = w.acc(c.res, 'dom'), w.acc(c.res, 'val')
            return [('exactly the entries but the two dot entries', FA(k, z3.Select(dom, k) == fs.isentry(ep(c), d, k), z3.Select(dom, k), z3.Select(fs.ents(ep(c), d), k))),
                    ('each with the record of its own path', z3.ForAll([k], Implies(fs.isentry(ep(c), d, k), z3.Select(val, k) == fs.info(ep(c), w.lib.s.cat(d, k))),
                                                                       patterns=[z3.Select(val, k), z3.Select(dom, k)]))]
        return f

    def inv(lc):
        m = [v for k, v in lc.cur.env.items() if z3.is_expr(v) and v.sort().name().startswith('Map_') and not (isinstance(k, tuple) and k[0] == 'tmp')][0]
        par = [v for k, v in lc.cur.env.items() if isinstance(k, tuple) and k[0] == 'par'][0]
        vis, e, d = lc.new('$rdvis'), lc.new('$epoch'), par
        k = z3.Const('k?', w.Str)
        dom, val = w.acc(m, 'dom'), w.acc(m, 'val')
        sel = And(z3.Select(vis, k), k != w.strlit('.'), k != w.strlit('..'))
        return And(lc.new(DIRT) == d,
                   FA(k, z3.Select(dom, k) == sel, z3.Select(dom, k), z3.Select(vis, k)),
                   FA(k, Implies(z3.Select(vis, k), z3.Select(fs.ents(e, d), k)), z3.Select(vis, k)),
                   FA(k, Implies(sel, z3.Select(val, k) == fs.info(e, w.lib.s.cat(d, k))), z3.Select(val, k), z3.Select(dom, k)))
    C(P + 'filesInfoFromPath', 1, modifies=('$rdvis', DIRT), ensures=lst(False), loops=(inv,))
    C('efsw::FileSystem::filesInfoFromPath', 1, modifies=('$rdvis', DIRT, 'arg:0'), ensures=lst(True))
    C(P + 'isRemoteFS', 1, result=lambda c: fs.remote(ep(c), c.a(0)))
    C('efsw::FileSystem::isRemoteFS', 1, result=lambda c: fs.remote(ep(c), c.a(0)))
    C('efsw::Platform::isLocalFUSEDirectory', 1, modifies=('arg:0',), result=lambda c: fs.local_fuse(ep(c), c.a(0)))

    def link(c):
        d = fs.strip(c.a(0))
        i = fs.info(ep(c), d, True)
        il = fs.islnk(i)
        t = If(fs.rp_ok(ep(c), g(i, 'Filepath')), fs.adds(fs.rp(ep(c), g(i, 'Filepath'))), w.strlit(''))
        out = [('the resolved target, or nothing', c.res == If(il, t, w.strlit(''))), ('nothing else is set', Implies(Not(il), c.a2(1) == c.a(1)))]
        if w.smode == 'S':
            out += [('the holding directory starts the path', Implies(il, z3.PrefixOf(c.a2(1), d))), ('and ends in a separator', Implies(il, Or(fs.ends(c.a2(1)), Not(z3.Contains(fs.strip(d), z3.StringVal('/'))))))]
        else:
            out += [('', Implies(il, c.a2(1) == fs._pdir(d)))]
        return out
    C('efsw::FileSystem::getLinkRealPath', 2, modifies=('arg:0', 'arg:1'), ensures=link)
    return cs
