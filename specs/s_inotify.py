"""C03-C08, C15, C16 for the inotify backend: contracts of FileWatcherInotify."""
import os, z3
import fsmodel
from inomodel import *
from runner import Group, Task, Lemma

FI = 'efsw::FileWatcherInotify::'


def fns(w):
    class X:
        pass
    x = X()
    x.fs = fsmodel.get(w)
    x.prefix = z3.Function('isprefix', w.Str, w.Str, w.Bool)
    return x


def view(w, get):
    return View(w, get)


def inv_req(w):
    return lambda c: View(w, c.old).inv()


def inv_ens(w):
    return lambda c: View(w, c.new).inv()


def contracts(w):
    x = fns(w)
    fs = x.fs
    cs = fsmodel.contracts(w)
    I = z3.Int
    i, j, k, p, q = (I(n) for n in ('i?', 'j?', 'k?', 'p?', 'q?'))
    s = z3.Const('s?', w.Str)
    V0 = lambda c: View(w, c.old)
    V1 = lambda c: View(w, c.new)

    def C(name, ar, **kw):
        cs.append(Contract(name, ar, **kw))
    # ---- callees proved elsewhere (C10, C12)
    C('efsw::Errors::Log::createLastError', 2, modifies=(CODE, TEXT, 'arg:1'), result=lambda c: c.a(0), ensures=lambda c: [('', c.new(CODE) == c.a(0))])
    C('efsw::String::strStartsWith', 2, ensures=lambda c: [('', (c.res != -1) == x.prefix(c.a(0), c.a(1))), ('', c.res >= -1)])

    # ---- small functions
    C('efsw::FileWatcher::followSymlinks', 0, result=lambda c: c.old(FOLLOW))
    C('efsw::FileWatcher::allowOutOfScopeLinks', 0, result=lambda c: c.old(SCOPE))
    C('efsw::FileWatcher::followSymlinks', 1, modifies=(FOLLOW,), ensures=lambda c: [('only that setting', c.new(FOLLOW) == c.a(0))])
    C('efsw::FileWatcher::allowOutOfScopeLinks', 1, modifies=(SCOPE,), ensures=lambda c: [('only that setting', c.new(SCOPE) == c.a(0))])
    C('efsw::FileWatcherImpl::linkAllowed', 2, result=lambda c: Or(And(c.old(FOLLOW), c.old(SCOPE)), x.prefix(c.a(0), c.a(1))))

    def option(c):
        v, o, d = c.a(0), c.a(1), c.a(2)
        n = w.acc(v, 'len')
        el = lambda t: Sel(w.acc(v, 'data'), t)
        is_ = lambda t: w.acc(el(t), 'mOption') == o
        return [('the first entry with that key, if any', FA(k, Implies(And(k >= 0, k < n, is_(k), FA(j, Implies(And(j >= 0, j < k), Not(is_(j))), el(j))), c.res == w.acc(el(k), 'mValue')), el(k))),
                ('else the default', Implies(FA(j, Implies(And(j >= 0, j < n), Not(is_(j))), el(j)), c.res == d))]
    C('efsw::FileWatcherImpl::getOptionValue', 3, ensures=option)

    def ancloop(n):
        def f(lc):
            ps = [v for kk, v in lc.cur.env.items() if kk != 'this' and not isinstance(kk, tuple) and z3.is_expr(v) and z3.is_int(v)]
            this, h = lc.cur.env['this'], View(w, lc.new)
            if len(ps) != 2:
                return None
            t, par = ps[n], ps[1 - n]
            return And(Or(t == 0, h.reg(t)), h.anc(this, par) == And(t != 0, Or(t == par, h.anc(t, par))))
        f.__name__ = 'still searching %d' % n
        return f
    C('efsw::WatcherInotify::inParentTree', 1, requires=lambda c: V0(c).inv() + [('the watch is registered', V0(c).reg(c.this)), ('so is the other one', V0(c).reg(c.a(0)))],
      result=lambda c: V0(c).anc(c.this, c.a(0)), loops=(ancloop(0), ancloop(1)))
    C(FI + 'pathInWatches', 1, requires=inv_req(w), ensures=lambda c: [
        ('exactly the paths of user watches', c.res == z3.Exists([k], And(V0(c).dom(RW, k), V0(c).f(DIR, V0(c).val(RW, k)) == c.a(0))))])

    def listing(c):
        h = V0(c)
        n, el = w.acc(c.res, 'len'), (lambda t: Sel(w.acc(c.res, 'data'), t))
        if not c.check:
            return []
        gs = {kk[0]: v for kk, v in c.e.st.env.items() if isinstance(kk, tuple) and kk[0] in ('src', 'pos')}
        gs.update({kk[0]: v for kk, v in c.e.ghostinit.items() if kk[0] in ('src', 'pos') and kk[0] not in gs})
        src, pos = (lambda t: Sel(gs['src'], t)), (lambda t: Sel(gs['pos'], t))
        return [('every path listed is that of a different user watch', FA(j, Implies(And(j >= 0, j < n), And(h.dom(RW, src(j)), el(j) == h.f(DIR, h.val(RW, src(j))), pos(src(j)) == j)), el(j))),
                ('every user watch is listed', FA(k, Implies(h.dom(RW, k), And(pos(k) >= 0, pos(k) < n, src(pos(k)) == k)), h.dom(RW, k)))]
    C(FI + 'directories', 0, requires=inv_req(w), ensures=listing)
    C(FI + 'isWatching', 1, requires=lambda c: V0(c).inv() + [('the watch is alive', V0(c).alive(c.a(0)))], result=lambda c: V0(c).reg(c.a(0)))
    C(FI + 'watcherContainsDirectory', 1, requires=inv_req(w), ensures=lambda c: [
        ('a registered watch of the parent directory, if any', And(Implies(c.res != 0, And(V0(c).reg(c.res), V0(c).f(DIR, c.res) == fs.adds(fs._pdir(fs.strip(c.a(0)))))),
         Implies(c.res == 0, FA(k, Implies(V0(c).has(k), V0(c).f(DIR, V0(c).at(k)) != fs.adds(fs._pdir(fs.strip(c.a(0))))), V0(c).has(k)))))])

    # ---- removal
    def gone(h, idx, t):
        """the ids that leave when watch idx is removed"""
        return And(h.has(idx), h.has(t), Or(t == idx, And(h.root(h.at(idx)), h.f(ID, h.at(t)) == idx)))

    def removal(c, skip):
        h, n, idx = V0(c), V1(c), c.a(0)
        out = [('exactly that watch and the subdirectories it alone tracks are unregistered',
                FA(k, n.has(k) == And(h.has(k), Not(gone(h, idx, k))), n.has(k), h.has(k))),
               ('every other watch stays filed as it was', FA(k, Implies(n.has(k), n.at(k) == h.at(k)), n.at(k), h.at(k), n.has(k))),
               ('the user watches are the previous ones without it', FA(k, And(n.dom(RW, k) == And(h.dom(RW, k), k != idx), Implies(n.dom(RW, k), n.val(RW, k) == h.val(RW, k))), n.dom(RW, k), h.dom(RW, k))),
               ('no other path is dropped', FA(s, And(n.dom(REF, s) == And(h.dom(REF, s), Not(gone(h, idx, h.val(REF, s)))), Implies(n.dom(REF, s), n.val(REF, s) == h.val(REF, s))), n.dom(REF, s), h.dom(REF, s))),
               ('a watch without a parent stays one, and the reverse', FA(p, Implies(n.reg(p), (n.f(PAR, p) == 0) == (h.f(PAR, p) == 0)), n.f(PAR, p))),
               ('only parents of registered watches are changed', FA(p, Implies(Not(h.reg(p)), n.f(PAR, p) == h.f(PAR, p)), n.f(PAR, p))),
               ('the kernel stops watching them', FA(k, n.f(KW, k) == And(h.f(KW, k), Or(Not(gone(h, idx, k)), skip)), n.f(KW, k), h.f(KW, k))),
               ('pending releases stay', And(n.ndel() >= h.ndel(), FA(j, Implies(And(j >= 0, j < h.ndel()), n.dele(j) == h.dele(j)), n.dele(j), h.dele(j))))]
        for lab, g in n.inv():
            if 'forgotten' in lab:
                g = FA(k, Implies(n.f(KW, k), Or(n.has(k), And(skip, k == idx))), n.f(KW, k))
            out.append((lab, g))
        return out
    MODS = (W, RW, REF, DEL, PAR, KW)

    def rreq(c):
        h = V0(c)
        if c.check:
            c.e.rmid = c.a(0)
        return h.inv() + [('not shutting down', c.old(OK))]

    def rloop(part):
        def f(lc):
            e, cur = lc.e, lc.cursor
            h, o, n = View(w, lc.init), View(w, lc.old), View(w, lc.new)
            idx = e.rmid
            wt = h.at(idx)
            if isinstance(cur, VecIter):
                v = e.read_in(lc.cur, cur.place)
                if v.sort().name() != 'Vec_Int' and v.sort().name() != 'Vec_int':
                    pass
                ps = [y for kk, y in lc.cur.env.items() if isinstance(kk, tuple) and kk[0] == 'pos']
                if not ps:
                    return None
                C = lambda t: And(h.has(t), h.anc(h.at(t), wt), Sel(ps[0], t) < cur.idx)
                if part == 'removed so far':
                    return And(FA(k, n.has(k) == And(h.has(k), Not(C(k))), n.has(k), h.has(k)), FA(k, Implies(n.has(k), n.at(k) == h.at(k)), n.at(k), h.at(k), n.has(k)))
                if part == 'user watches stay':
                    return FA(k, And(n.dom(RW, k) == h.dom(RW, k), n.val(RW, k) == h.val(RW, k)), n.dom(RW, k), n.val(RW, k))
                if part == 'paths so far':
                    return FA(s, And(n.dom(REF, s) == And(h.dom(REF, s), Not(C(h.val(REF, s)))), Implies(n.dom(REF, s), n.val(REF, s) == h.val(REF, s))), n.dom(REF, s), h.dom(REF, s))
                if part == 'parents':
                    return And(FA(p, Implies(n.reg(p), (n.f(PAR, p) == 0) == (h.f(PAR, p) == 0)), n.f(PAR, p)), FA(p, Implies(Not(h.reg(p)), n.f(PAR, p) == h.f(PAR, p)), n.f(PAR, p)))
                if part == 'kernel':
                    return FA(k, n.f(KW, k) == And(h.f(KW, k), Not(C(k))), n.f(KW, k), h.f(KW, k))
                if part == 'pending':
                    return And(n.ndel() >= h.ndel(), FA(j, Implies(And(j >= 0, j < h.ndel()), n.dele(j) == h.dele(j)), n.dele(j), h.dele(j)))
                if part == 'invariant':
                    return And(*[g for _, g in n.inv()])
                return None
            if isinstance(cur, MapIter) and part == 'reparented':
                return FA(p, n.f(PAR, p) == If(And(o.reg(p), Sel(cur.vis, o.f(IID, p)), o.f(PAR, p) == wt), o.f(PAR, wt), o.f(PAR, p)), n.f(PAR, p))
            return None
        f.__name__ = part
        return f
    rl = tuple(rloop(t) for t in ('removed so far', 'user watches stay', 'paths so far', 'parents', 'kernel', 'pending', 'invariant', 'reparented'))
    C(FI + 'removeWatchLocked', 2, requires=lambda c: rreq(c) + [('only an internal watch keeps its descriptor', Implies(c.a(1), Or(Not(V0(c).has(c.a(0))), Not(V0(c).root(V0(c).at(c.a(0)))))))],
      modifies=MODS, ensures=lambda c: removal(c, c.a(1)), loops=rl)
    rid = Contract(FI + 'removeWatch', 1, requires=rreq, modifies=MODS, ensures=lambda c: removal(c, F))
    cs.append(rid)
    w.rid = rid
    return cs


def axioms(w):
    fs = fsmodel.get(w)
    w.strlit('')
    return fs.axioms()


def mods(w):
    x = fns(w)
    m = fsmodel.models(w, x.fs)

    def rm_watch(e, this, args, n):
        r = e.fresh('rm', w.Int)
        e.fact(Or(r == 0, r == -1))
        e.hset(KW, z3.Store(e.hget(KW), args[1], F))
        return r
    m['inotify_rm_watch'] = rm_watch
    return m


SINGLE = {'FileWatcherInotify', 'FileWatcherImpl', 'FileWatcher', 'FileWatcherGeneric'}
OPTS = {'mem': True, 'debug': bool(os.environ.get('VDEBUG')), 'singletons': SINGLE, 'dyn': {'FileWatcherImpl': 'FileWatcherInotify'}}
G = Group('inotify', contracts, models=mods, ghosts=ghosts, axioms=axioms, opts=OPTS)
TASKS = [Task(G, 'efsw::FileWatcher::followSymlinks', key='followSymlinks()'), Task(G, 'efsw::FileWatcher::followSymlinks', key='followSymlinks(bool)'), Task(G, 'efsw::FileWatcher::allowOutOfScopeLinks', key='Links()'), Task(G, 'efsw::FileWatcher::allowOutOfScopeLinks', key='Links(bool)'), Task(G, 'efsw::FileWatcherImpl::linkAllowed'),
         Task(G, 'efsw::FileWatcherImpl::getOptionValue'), Task(G, 'efsw::WatcherInotify::inParentTree'), Task(G, FI + 'pathInWatches'),
         Task(G, FI + 'directories'), Task(G, FI + 'isWatching'), Task(G, FI + 'watcherContainsDirectory'),
         Task(G, FI + 'removeWatch', key='removeWatch(long)')]
if os.environ.get('VDEBUG'):
    TASKS.append(Task(G, FI + 'removeWatchLocked'))


def sel(*names):
    return [t for t in TASKS if any(t.label() == n or t.fn.endswith('::' + n) for n in names)]


TASKS_C03 = sel('isWatching', 'inParentTree')
TASKS_C04 = sel('isWatching', 'watcherContainsDirectory')
TASKS_C05 = sel('inParentTree', 'isWatching', 'directories', 'pathInWatches', 'removeWatch', 'watcherContainsDirectory')
TASKS_C06 = sel('removeWatch', 'inParentTree', 'directories')
TASKS_C07 = sel('getOptionValue', 'pathInWatches', 'linkAllowed')
TASKS_C08 = sel('linkAllowed', 'followSymlinks', 'allowOutOfScopeLinks', 'pathInWatches')
TASKS_C15 = sel('isWatching', 'directories')
TASKS_C16 = sel('isWatching', 'inParentTree', 'getOptionValue')
