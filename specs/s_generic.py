"""C02 (and parts of C06-C08) for the polling backend: the tree of polled
directories and the list of watches.

Each tracked directory is a node of a tree. Callbacks are logged per node, so
that what a node reports for its own directory is separate from what the nodes
below it report. LEVEL is the depth of a node, fixed when it is created: a
function called on a node only touches that node and deeper ones."""
import os, z3
import fsmodel
from inomodel import ev_sort, ADD, DELETE, MODIFIED, MOVED, FOLLOW, SCOPE, CODE, TEXT
from core import FA, Place, MapIter, VecIter, ObjRef
from engine import Contract, And, Or, Not, If, Implies, T, F
from runner import Group, Task, Lemma

Sel = z3.Select
DG, WG, FG = 'efsw::DirWatcherGeneric::', 'efsw::WatcherGeneric::', 'efsw::FileWatcherGeneric::'
d = lambda f: 'DirWatcherGeneric.' + f
PARENT, WATCH, SNAP, DIRS, RECD, DELD = (d(f) for f in ('Parent', 'Watch', 'DirSnap', 'Directories', 'Recursive', 'Deleted'))
WID, WDIR, WLIS, WREC = ('Watcher.' + f for f in ('ID', 'Directory', 'Listener', 'Recursive'))
WIMPL, WTREE = 'WatcherGeneric.WatcherImpl', 'WatcherGeneric.DirWatch'
LIST, LASTID, INIT = 'FileWatcherGeneric.mWatches', 'FileWatcherGeneric.mLastWatchID', 'FileWatcherImpl.mInitOK'
ETR, ETN, POLL, DIFF, CLOG, CLN, INW, FATE, BASE, REP = '$etr', '$etn', '$poll', '$diff', '$clog', '$cln', '$inw', '$fate', '$base', '$rep'
NODE = (PARENT, WATCH, SNAP, DIRS, RECD, DELD, ETR, ETN, DIFF, CLOG, CLN, FATE, REP)
MODS = NODE + (POLL, INW)
LISTS = {'FilesCreated': ADD, 'FilesModified': MODIFIED, 'FilesDeleted': DELETE, 'FilesMoved': MOVED,
         'DirsCreated': ADD, 'DirsModified': MODIFIED, 'DirsDeleted': DELETE, 'DirsMoved': MOVED}
CALLS = {'DirsCreated': 1, 'DirsDeleted': 2, 'DirsMoved': 3}


def call_sort(w):
    if 'TreeCall' not in w.cache:
        w.cache['TreeCall'] = w._dt('TreeCall', [('what', w.Int), ('x', w.Str), ('y', w.Str)])
    return w.cache['TreeCall']


def ghosts(w):
    I, A = w.Int, z3.ArraySort
    g = fsmodel.ghosts(w)
    g.update({ETR: A(I, A(I, ev_sort(w))), ETN: A(I, I), POLL: A(I, I), DIFF: A(I, w.sort('efsw::DirectorySnapshotDiff')), CLOG: A(I, A(I, call_sort(w))), CLN: A(I, I), FATE: A(I, I), BASE: A(I, I), REP: A(I, A(w.Str, I)),   # REP: where a name was last reported; FATE: 1 given up, 2 given up as deleted
              INW: A(w.Str, w.Bool), '$alive': A(I, w.Bool)})
    return g


def this_of(e):
    t = e.st.env['this']
    return t.ref if isinstance(t, ObjRef) else t


def contracts(w):
    fs = fsmodel.get(w)
    cs = fsmodel.contracts(w)
    g, acc = fs.g, w.acc
    LEVEL = z3.Function('level', w.Int, w.Int)
    q, r, i, j = (z3.Int(n) for n in ('q?', 'r?', 'i?', 'j?'))
    nm = z3.Const('nm?', w.Str)
    Ev, Call = ev_sort(w).constructor(0), call_sort(w).constructor(0)
    empty = w.strlit('')
    fname = fs._fname
    prefix = z3.Function('isprefix', w.Str, w.Str, w.Bool)

    def C(name, ar, **kw):
        cs.append(Contract(name, ar, **kw))

    def has(m, k):
        return Sel(acc(m, 'dom'), k)

    def at(m, k):
        return Sel(acc(m, 'val'), k)

    def n_(v):
        return acc(v, 'len')

    def el(v, t):
        return Sel(acc(v, 'data'), t)

    # ---- what holds of every node between two calls
    def links(get, q, exempt=None):
        D = Sel(get(DIRS), q)
        c = at(D, nm)
        body = And(c != 0, LEVEL(c) == LEVEL(q) + 1, Sel(get(WATCH), c) == Sel(get(WATCH), q), Sel(get(RECD), c) == Sel(get(RECD), q))
        return FA([q, nm], Implies(And(has(D, nm), T if exempt is None else q != exempt), body), z3.MultiPattern(D, has(D, nm)) if False else at(D, nm))

    def alive(get, exempt=None):
        none = z3.K(w.Int, F)
        return (get(DELD) if exempt is None else z3.Store(get(DELD), exempt, F)) == none

    def inv(get, lx=None, dx=None):
        return [('a tracked subdirectory is one level below, for the same watch and equally recursive', links(get, q, lx)),
                ('no tracked directory is marked as deleted', alive(get, dx))]

    def sub(get, x, itself=False):
        """the same for the levels of x and below, but for x itself"""
        D = Sel(get(DIRS), q)
        c = at(D, nm)
        body = And(c != 0, LEVEL(c) == LEVEL(q) + 1, Sel(get(WATCH), c) == Sel(get(WATCH), q), Sel(get(RECD), c) == Sel(get(RECD), q))
        g_ = And(LEVEL(q) >= LEVEL(x), T if itself else q != x)
        return [('a directory tracked below is one level further down, for the same watch and equally recursive', FA([q, nm], Implies(And(has(D, nm), g_), body), at(D, nm))),
                ('no directory tracked below is marked as deleted', FA(q, Implies(And(LEVEL(q) >= LEVEL(x), q != x), Not(Sel(get(DELD), q))), Sel(get(DELD), q)))]

    def below(c, x, fields=NODE, itself=()):
        """only deeper nodes (and x itself, but for the fields given) are touched"""
        out = []
        for f in fields:
            o, n = c.old(f), c.new(f)
            out.append(('%s of other directories at or above this level stays' % f.split('.')[-1], FA(r, Implies(And(LEVEL(r) <= LEVEL(x), r != x), Sel(n, r) == Sel(o, r)), Sel(n, r))))
            if f in itself:
                out.append(('%s stays' % f.split('.')[-1], Sel(n, x) == Sel(o, x)))
        return out

    def mono(old, new):
        return [('polls are only added', FA(r, Sel(new(POLL), r) >= Sel(old(POLL), r), Sel(new(POLL), r))),
                ('paths found in watches', FA(nm, Implies(Sel(old(INW), nm), Sel(new(INW), nm)), Sel(new(INW), nm)))]

    def path(get, x):
        return g(acc(Sel(get(SNAP), x), 'DirectoryInfo'), 'Filepath')

    def mk(get, x, name, act, old):
        wt = Sel(get(WATCH), x)
        return Ev(Sel(get(WLIS), wt), Sel(get(WID), wt), path(get, x), name, act, old)

    def want(get, x, lst, item):
        """the event an element of a list of differences stands for"""
        a = z3.IntVal(LISTS[lst])
        if LISTS[lst] == MOVED:
            return mk(get, x, fname(g(acc(item, 'second'), 'Filepath')), a, acc(item, 'first'))
        p = g(item, 'Filepath')
        return mk(get, x, fname(p), a, empty)

    def wantcall(lst, item):
        if lst == 'DirsMoved':
            return Call(z3.IntVal(3), acc(item, 'first'), g(acc(item, 'second'), 'Filepath'))
        return Call(z3.IntVal(CALLS[lst]), g(item, 'Filepath'), empty)

    # ---- loop invariants
    def lst_of(lc):
        cur = lc.cursor
        if isinstance(cur, VecIter) and cur.place.path and cur.place.path[-1][0] == 'f' and cur.place.path[-1][1] in LISTS:
            return cur.place.path[-1][1]
        return None

    def tref(lc):
        t = lc.cur.env['this']
        return t.ref if isinstance(t, ObjRef) else t

    def loopinv(part):
        def f(lc):
            x, lst, cur = tref(lc), lst_of(lc), lc.cursor
            if not z3.is_expr(x):
                return None
            old, new = lc.old, lc.new
            fn = lc.e.curfn.split('::')[-1]
            fn = {'~DirWatcherGeneric': '<dtor>', 'DirWatcherGeneric': '<ctor>'}.get(fn, fn)
            moving = [f for f in NODE if f in lc.moving]
            if part in ('tree', 'tree but this'):
                if DIRS not in moving or (part != 'tree') != (fn == '<dtor>'):
                    return None
                return sub(new, x)[0][1] if fn == '<dtor>' else links(new, q)
            if part in ('unmarked', 'unmarked but this'):
                if DELD not in moving or (part != 'unmarked') != (fn == '<dtor>'):
                    return None
                return sub(new, x)[1][1] if fn == '<dtor>' else alive(new)
            if part == 'more':
                return And(*[y for _, y in mono(old, new)]) if POLL in lc.moving or INW in lc.moving else None
            if part == 'others':
                return And(*[FA(r, Implies(And(T if fn == '<ctor>' else LEVEL(r) <= LEVEL(x), r != x), Sel(new(fl), r) == Sel(old(fl), r)), Sel(new(fl), r)) for fl in moving]) if moving else None
            if part == 'own':
                fl = [f for f in moving if f in (PARENT, WATCH, SNAP, RECD, DELD, DIFF, FATE)]
                return And(*[Sel(new(f), x) == Sel(old(f), x) for f in fl]) if fl else None
            if part.startswith('own '):
                fl = [f for f in moving if f in ((ETR, ETN, REP), (CLOG, CLN), (DIRS,))[('own events', 'own calls', 'own children').index(part)]]
                if not fl or (lst and fl[0] == ETR) or (lst in CALLS and fl[0] != ETR):
                    return None
                return And(*[Sel(new(f), x) == Sel(old(f), x) for f in fl])
            if part == 'silent':
                if fn not in ('<dtor>', 'addChildren') or ETN not in moving:
                    return None
                return Implies(Not(Sel(lc.init(DELD), x) if fn == '<dtor>' else lc.e.entryargs[0]), And(new(ETN) == old(ETN), new(ETR) == old(ETR)))
            if part == 'children to go':
                if fn != '<dtor>' or not isinstance(cur, MapIter):
                    return None
                D, E = Sel(new(DIRS), x), Sel(lc.init(DIRS), x)
                return FA(nm, Implies(And(has(D, nm), Not(Sel(cur.vis, nm))), And(has(E, nm), at(D, nm) == at(E, nm))), at(D, nm))
            if part == 'children gone':
                if fn != '<dtor>' or not isinstance(cur, MapIter):
                    return None
                D, E = Sel(new(DIRS), x), Sel(lc.init(DIRS), x)
                return FA(nm, Implies(And(has(E, nm), Or(Sel(cur.vis, nm), Not(has(D, nm)))), Sel(new(FATE), at(E, nm)) == If(Sel(lc.init(DELD), x), z3.IntVal(2), z3.IntVal(1))), at(E, nm))
            if part == 'children kept':
                if fn != 'addChildren':
                    return None
                D, E = Sel(new(DIRS), x), Sel(old(DIRS), x)
                return FA(nm, Implies(has(E, nm), has(D, nm)), has(D, nm))
            if lst:
                v = lc.e.read_in(lc.cur, cur.place)
                ix = cur.idx
                tr, b = Sel(new(ETR), x), Sel(old(ETN), x)
                if part == 'reported so far':
                    return FA(j, Implies(And(j >= 0, j < ix), Sel(tr, b + j) == want(new, x, lst, el(v, j))), Sel(tr, b + j), el(v, j))
                if part == 'reports counted':
                    return And(ix >= 0, ix <= n_(v), Sel(new(ETN), x) == b + ix)
                if part == 'earlier reports':
                    return FA(j, Implies(j < b, Sel(tr, j) == Sel(Sel(old(ETR), x), j)), Sel(tr, j))
                cl, cb = Sel(new(CLOG), x), Sel(old(CLN), x)
                if lst in CALLS:
                    if part == 'tracked so far':
                        return FA(j, Implies(And(j >= 0, j < ix), Sel(cl, cb + j) == wantcall(lst, el(v, j))), Sel(cl, cb + j), el(v, j))
                    if part == 'calls counted':
                        return Sel(new(CLN), x) == cb + ix
                    if part == 'earlier calls':
                        return FA(j, Implies(j < cb, Sel(cl, j) == Sel(Sel(old(CLOG), x), j)), Sel(cl, j))
            if isinstance(cur, MapIter) and part == 'polled so far':
                D = Sel(new(DIRS), x)
                return FA(nm, Implies(And(has(D, nm), Sel(cur.vis, nm)), Sel(new(POLL), at(D, nm)) > Sel(old(POLL), at(D, nm))), at(D, nm), Sel(cur.vis, nm))
            return None
        f.__name__ = part
        return f
    LOOPS = tuple(loopinv(p) for p in ['tree', 'tree but this', 'children to go', 'children gone', 'unmarked', 'unmarked but this', 'more', 'children kept', 'reported so far', 'reports counted', 'earlier reports', 'tracked so far', 'calls counted', 'earlier calls', 'polled so far'] +
                  ['others', 'silent', 'own', 'own events', 'own calls', 'own children'])

    def reports(c, x, lists, own=None, d=None, tracking=True):
        """the reports of x during the call are the elements of the lists, each once (own: (condition, event))"""
        e = c.e
        tr0, tr1, n0, n1 = Sel(c.old(ETR), x), Sel(c.new(ETR), x), Sel(c.old(ETN), x), Sel(c.new(ETN), x)
        D = Sel(c.new(DIFF), x) if d is None else d
        cl1, m0, m1 = Sel(c.new(CLOG), x), Sel(c.old(CLN), x), Sel(c.new(CLN), x)
        out, total, spans, calls = [], z3.IntVal(0), [], z3.IntVal(0)
        for lst, cond in lists.items():
            v = acc(D, lst)
            n = If(cond, n_(v), 0)
            total = total + n
            base, cbase = None, None
            for pl, cur, ent in e.st.done:
                if isinstance(cur, VecIter) and pl.path and pl.path[-1] == ('f', lst):
                    get = lambda h, ent=ent: ent.h[h] if h in ent.h else e.hinit(h)
                    base, cbase = Sel(get(ETN), x), Sel(get(CLN), x)
            if lst in CALLS:
                calls = calls + n
            if base is None:
                out.append(('each entry of %s is reported' % lst, n == 0))
                continue
            out.append(('each entry of %s is reported, with the watch, path, name and action of that entry' % lst,
                        And(base >= n0, FA(j, Implies(And(j >= 0, j < n), Sel(tr1, base + j) == want(c.new, x, lst, el(v, j))), Sel(tr1, base + j), el(v, j)))))
            for s0, s1 in spans:
                out.append(('reports of different lists are different callbacks', Or(base + n <= s0, s1 <= base)))
            spans.append((base, base + n))
            if tracking and lst in CALLS:
                out.append(('each entry of %s is tracked accordingly' % lst, FA(j, Implies(And(j >= 0, j < n), Sel(cl1, cbase + j) == wantcall(lst, el(v, j))), Sel(cl1, cbase + j), el(v, j))))
        if own is not None:
            oc, oe = own
            free = lambda p: And(*[Or(p < s0, p >= s1) for s0, s1 in spans])
            out.append(('a change of the directory itself is reported when asked', Implies(oc, Or(And(Sel(tr1, n0) == oe, free(n0)), And(Sel(tr1, n1 - 1) == oe, free(n1 - 1))))))
            total = total + If(oc, 1, 0)
        out.append(('nothing else is reported', n1 == n0 + total))
        out.append(('what was reported before stays', FA(j, Implies(j < n0, Sel(tr1, j) == Sel(tr0, j)), Sel(tr1, j))))
        if tracking and any(l in CALLS for l in lists):
            out.append(('nothing else is tracked or untracked', m1 == m0 + calls))
        return out

    # ---- callees
    C('efsw::Errors::Log::createLastError', 2, modifies=(CODE, TEXT, 'arg:1'), result=lambda c: c.a(0), ensures=lambda c: [('', c.new(CODE) == c.a(0))])
    C('efsw::String::strStartsWith', 2, ensures=lambda c: [('', (c.res != -1) == prefix(c.a(0), c.a(1))), ('', c.res >= -1)])
    C('efsw::FileWatcher::followSymlinks', 0, result=lambda c: c.old(FOLLOW))
    C('efsw::FileWatcher::allowOutOfScopeLinks', 0, result=lambda c: c.old(SCOPE))
    C('efsw::FileWatcherImpl::linkAllowed', 2, result=lambda c: Or(And(c.old(FOLLOW), c.old(SCOPE)), prefix(c.a(0), c.a(1))))
    allowed = lambda c, a, b: Or(And(c.old(FOLLOW), c.old(SCOPE)), prefix(a, b))

    def scanned(c):
        out = [('the path stays', g(acc(c.nthis, 'DirectoryInfo'), 'Filepath') == g(acc(c.othis, 'DirectoryInfo'), 'Filepath'))]
        for l in LISTS:
            x = el(acc(c.res, l), i)
            p = g(acc(x, 'second') if LISTS[l] == MOVED else x, 'Filepath')
            out.append(('', n_(acc(c.res, l)) >= 0))
            out.append(('paths carry no trailing separator', FA(i, Implies(And(i >= 0, i < n_(acc(c.res, l))), fs._strip(p) == p), x)))
        if isinstance(c.this, Place) and c.this.root[0] == 'heap' and c.e.curfn.startswith(DG):
            x = this_of(c.e)
            c.e.hset(DIFF, z3.Store(c.e.hget(DIFF), x, c.res))
            c.e.hset(POLL, z3.Store(c.e.hget(POLL), x, Sel(c.e.hget(POLL), x) + 1))
        return out
    C('efsw::DirectorySnapshot::scan', 0, modifies=('this', '$rdvis', fsmodel.DIRT), ensures=scanned)
    C('efsw::DirectorySnapshotDiff::changed', 0, result=lambda c: Or(*[n_(acc(c.othis, f)) != 0 for f in LISTS]))
    FSG = ('$rdvis', fsmodel.DIRT)
    ALL = MODS + FSG

    # ---- is a path among those watched?
    I_, S_ = w.Int, w.Str
    fld = lambda cls, f: z3.ArraySort(I_, w.sort({y['n']: y['t'] for y in w.prog.recs['efsw::' + cls]['fields']}[f]))
    INTREE = z3.Function('intree', fld('DirWatcherGeneric', 'DirSnap'), fld('DirWatcherGeneric', 'Directories'), I_, S_, w.Bool)
    tree = lambda get, x, p: INTREE(get(SNAP), get(DIRS), x, p)

    def anypath(get, p):
        """some user watch is of that path, or tracks it"""
        v = get(LIST)
        o = el(v, i)
        return z3.Exists([i], And(i >= 0, i < n_(v), Or(Sel(get(WDIR), o) == p, tree(get, Sel(get(WTREE), o), p))), patterns=[el(v, i)])

    def unfold(c):
        # what it means, for this directory
        D = Sel(c.old(DIRS), c.this)
        return [('', tree(c.old, c.this, c.a(0)) == Or(path(c.old, c.this) == c.a(0), z3.Exists([nm], And(has(D, nm), tree(c.old, at(D, nm), c.a(0))), patterns=[at(D, nm)])))] if c.check else []

    def inw(c):
        return [('', c.new(INW) == z3.Store(c.old(INW), c.a(0), Or(Sel(c.old(INW), c.a(0)), c.res)))] if not c.check else []

    def notyet(part):
        def f(lc):
            x, cur = tref(lc), lc.cursor
            if part == 'not below so far' and isinstance(cur, MapIter):
                D = Sel(lc.new(DIRS), x)
                p = lc.e.entryargs[0]
                return FA(nm, Implies(And(has(D, nm), Sel(cur.vis, nm)), Not(tree(lc.new, at(D, nm), p))), at(D, nm))
            if part == 'not watched so far' and isinstance(cur, VecIter):
                v = lc.new(LIST)
                p = lc.e.entryargs[0]
                o = el(v, i)
                return And(cur.idx >= 0, FA(i, Implies(And(i >= 0, i < cur.idx), And(Sel(lc.new(WDIR), o) != p, Not(tree(lc.new, Sel(lc.new(WTREE), o), p)))), o))
            return None
        f.__name__ = part
        return f
    NOTYET = (notyet('not below so far'), notyet('not watched so far'))
    C(DG + 'pathInWatches', 1, requires=unfold, ensures=lambda c: [('exactly the paths of the directory and of those tracked below it', c.res == tree(c.old, c.this, c.a(0)))], loops=NOTYET)
    C(WG + 'pathInWatches', 1, modifies=(INW,), ensures=lambda c: [('exactly the paths of its tree', c.res == tree(c.old, Sel(c.old(WTREE), c.this), c.a(0)))] + inw(c))
    lreq = lambda c: [('', n_(c.old(LIST)) >= 0)] if c.check else []   # vectors have a length
    C(FG + 'pathInWatches', 1, requires=lreq, modifies=(INW,), ensures=lambda c: [('exactly the paths watched or tracked', c.res == anypath(c.old, c.a(0)))] + inw(c), loops=NOTYET)

    # ---- the functions of a node
    def oneevent(c, name, act, old, extra=()):
        x = c.this
        b = Sel(c.old(ETN), x)
        return [('exactly one callback', c.new(ETN) == z3.Store(c.old(ETN), x, b + 1)),
                ("to the watch's listener, with its id, the directory's path, the bare name, the action and the old name", c.new(ETR) == z3.Store(c.old(ETR), x, z3.Store(Sel(c.old(ETR), x), b, mk(c.old, x, name, act, old))))]
    C(DG + 'handleAction', 3, modifies=(ETR, ETN, REP), ensures=lambda c: oneevent(c, fname(c.a(0)), c.a(1), c.a(2)) + [('', c.new(REP) == z3.Store(c.old(REP), c.this, z3.Store(Sel(c.old(REP), c.this), fname(c.a(0)), Sel(c.old(ETN), c.this))))])

    def req(lx=False, dx=False):
        return lambda c: inv(c.old, None, c.this if dx else None)

    def std(c, itself=()):
        return inv(c.new) + below(c, c.this, itself=itself) + mono(c.old, c.new)

    def watch(c):
        x = c.this
        D = Sel(c.new(DIRS), x)
        out = std(c, (PARENT, WATCH, RECD, DELD)) + [('the directory was polled', Sel(c.new(POLL), x) > Sel(c.old(POLL), x)), ('its path stays', path(c.new, x) == path(c.old, x))]
        if c.check:
            wt = Sel(c.old(WATCH), x)
            own = (And(c.a(0), acc(Sel(c.new(DIFF), x), 'DirChanged'), Sel(c.old(PARENT), x) != 0),
                   Ev(Sel(c.old(WLIS), wt), Sel(c.old(WID), wt), fs._pdir(path(c.old, x)), fname(path(c.old, x)), z3.IntVal(MODIFIED), empty))
            out += reports(c, x, {l: T for l in LISTS}, own)
            out.append(('every subdirectory tracked is polled too', FA(nm, Implies(has(D, nm), Sel(c.new(POLL), at(D, nm)) > Sel(c.old(POLL), at(D, nm))), at(D, nm))))
        return out
    C(DG + 'watch', 1, requires=req(), modifies=ALL, ensures=watch, loops=LOOPS)

    def logged(k):
        def f(c):
            return None
        return f

    def created(c):
        x = c.this
        O, N = Sel(c.old(DIRS), x), Sel(c.new(DIRS), x)
        name = fname(fs._strip(c.a(0)))
        b = Sel(c.old(ETN), x)
        out = std(c, (PARENT, WATCH, SNAP, RECD, DELD, DIFF, CLOG, CLN, FATE) if c.check else (PARENT, WATCH, SNAP, RECD, DELD, DIFF, FATE))
        out += [('its appearance is reported once', And(Sel(c.new(ETN), x) == b + 1, Sel(c.new(ETR), x) == z3.Store(Sel(c.old(ETR), x), b, mk(c.old, x, name, z3.IntVal(ADD), empty)))),
                ('the other subdirectories stay tracked as they were', FA(nm, Implies(nm != name, And(has(N, nm) == has(O, nm), at(N, nm) == at(O, nm))), has(N, nm), at(N, nm))),
                ('nothing is tracked unless recursive', Implies(Not(Sel(c.old(RECD), x)), N == O)), ('what was tracked under that name is tracked', Implies(has(O, name), has(N, name)))]
        if c.check:
            ep = c.old('$epoch')
            dir = fs.adds(w.lib.s.cat(fs.adds(path(c.old, x)), name))
            fi = fs.info(ep, dir)
            ok = And(fs.isdir(fi), fs.readable(fi), Not(fs.remote(ep, dir)))
            lp = fs.strip(dir)
            li = fs.info(ep, lp, True)
            tgt = fs.adds(fs.rp(ep, g(li, 'Filepath')))
            link = And(fs.islnk(li), fs.rp_ok(ep, g(li, 'Filepath')), tgt != empty)
            new = Or(Not(has(O, name)), at(N, name) != at(O, name))
            tracked = And(has(N, name), new)
            y = at(N, name)
            fin = If(link, tgt, dir)
            out += [('only a readable local directory is tracked', Implies(tracked, ok)),
                    ('it is polled at its own path, a link at that of its target', Implies(tracked, path(c.new, y) == where(c.old, ep, x, x, fin))),
                    ('what it holds already is looked at', Implies(tracked, Sel(c.new(POLL), y) >= 2)),
                    ('a readable subdirectory of a recursive watch is tracked unless its path already is', Implies(And(Sel(c.old(RECD), x), ok, Not(link)), Or(has(N, name), Sel(c.new(INW), dir)))),
                    ('a link is tracked only as far as the settings allow', Implies(And(tracked, link), And(c.old(FOLLOW), allowed(c, fs._pdir(lp), tgt)))),
                    ('a link allowed by the settings is tracked unless its target already is', Implies(And(Sel(c.old(RECD), x), ok, link, c.old(FOLLOW), allowed(c, fs._pdir(lp), tgt)), Or(has(N, name), Sel(c.new(INW), tgt))))]
        else:
            # the call itself is logged for the caller's sake
            out.append(('', c.new(CLOG) == z3.Store(c.old(CLOG), x, Sel(c.new(CLOG), x))) if False else ('', T))
        return out
    TREE = {DG + 'createDirectory': (1, 1), DG + 'removeDirectory': (2, 1), DG + 'moveDirectory': (3, 2)}

    def withlog(f, what, nargs):
        def g_(c):
            out = f(c)
            if not c.check:
                x = c.this
                b = Sel(c.old(CLN), x)
                out = out + [('', Sel(c.new(CLN), x) == b + 1), ('', Sel(c.new(CLOG), x) == z3.Store(Sel(c.old(CLOG), x), b, Call(z3.IntVal(what), c.a(0), c.a(1) if nargs == 2 else empty)))]
            return out
        return g_
    C(DG + 'createDirectory', 1, requires=req(), modifies=ALL, ensures=withlog(created, 1, 1), loops=LOOPS)

    def keepown(c, fields):
        return [('%s stays' % f.split('.')[-1], Sel(c.new(f), c.this) == Sel(c.old(f), c.this)) for f in fields]

    def removed(c):
        x = c.this
        O, N = Sel(c.old(DIRS), x), Sel(c.new(DIRS), x)
        name = fname(fs._strip(c.a(0)))
        return std(c, tuple(f for f in NODE if f not in (DIRS, CLOG, CLN) + (() if c.check else ()))) + (keepown(c, (CLOG, CLN)) if c.check else []) + [
            ('that subdirectory is given up as deleted', Implies(has(O, name), Sel(c.new(FATE), at(O, name)) == 2)),
            ('exactly that subdirectory is no longer tracked', FA(nm, And(has(N, nm) == And(has(O, nm), nm != name), Implies(has(N, nm), at(N, nm) == at(O, nm))), has(N, nm), at(N, nm)))]
    C(DG + 'removeDirectory', 1, requires=req(), modifies=ALL, ensures=withlog(removed, 2, 1), loops=LOOPS)

    def moved(c):
        x = c.this
        O, N = Sel(c.old(DIRS), x), Sel(c.new(DIRS), x)
        a, b = fname(fs._strip(c.a(0))), fname(fs._strip(c.a(1)))
        out = std(c, tuple(f for f in NODE if f not in (DIRS, CLOG, CLN))) + (keepown(c, (CLOG, CLN)) if c.check else []) + [
            ('the subdirectory is tracked under its new name, the others as before', FA(nm, And(has(N, nm) == If(has(O, a), Or(nm == b, And(has(O, nm), nm != a)), has(O, nm)),
                                                                                           Implies(has(N, nm), at(N, nm) == If(And(has(O, a), nm == b), at(O, a), at(O, nm)))), has(N, nm), at(N, nm)))]
        cat, P = w.lib.s.cat, fs.adds(path(c.old, x))
        op, np, ch = cat(P, fs.adds(a)), cat(P, fs.adds(b)), at(O, a)
        out.append(('and knows its new path', Implies(And(has(O, a), path(c.old, ch) == op), path(c.new, ch) == np)))
        return out
    C(DG + 'moveDirectory', 2, requires=req(), modifies=ALL, ensures=withlog(moved, 3, 2), loops=LOOPS)

    C(DG + 'changePath', 2, requires=req(), modifies=(SNAP,), loops=LOOPS,
      ensures=lambda c: below(c, c.this, (SNAP,)) + [('a directory at the old path is now at the new one', path(c.new, c.this) == If(path(c.old, c.this) == c.a(0), c.a(1), path(c.old, c.this))),
                                                     ('a directory elsewhere, and all below it, stays', Implies(path(c.old, c.this) != c.a(0), c.new(SNAP) == c.old(SNAP))),
                                                     ('what is known of the entries stays', acc(Sel(c.new(SNAP), c.this), 'Files') == acc(Sel(c.old(SNAP), c.this), 'Files'))])
    def where(get, ep, x, par, a0):
        """the path of a new directory of that name: itself if it is the watch's own or has a separator at an end, else below its parent"""
        S = w.lib.s
        asis = Or(Sel(get(WDIR), Sel(get(WATCH), x)) == a0, And(S.len(a0) != 0, Or(S.chr(a0, z3.IntVal(0)) == 47, S.chr(a0, S.len(a0) - 1) == 47)), par == 0)
        return g(fs.info(ep, If(asis, a0, S.cat(fs.adds(path(get, par)), fs.adds(a0)))), 'Filepath')
    C(DG + 'resetDirectory', 1, modifies=(SNAP, 'arg:0'), ensures=lambda c: [
        ('only this directory', FA(r, Implies(r != c.this, Sel(c.new(SNAP), r) == Sel(c.old(SNAP), r)), Sel(c.new(SNAP), r))),
        ('its path is the one given, or below its parent', path(c.new, c.this) == where(c.old, c.old('$epoch'), c.this, Sel(c.old(PARENT), c.this), c.a(0)))])

    def fresh(c):
        x = c.this
        D = Sel(c.old(DIRS), q)
        return FA([q, nm], Implies(has(D, nm), And(at(D, nm) != x, q != x)), at(D, nm))

    def ctorreq(c):
        if c.check:
            # a new object: nothing refers to it yet, its depth is that below its parent
            return inv(c.old, None, c.this) + [('', fresh(c)), ('', LEVEL(c.this) == If(c.a(0) == 0, 0, LEVEL(c.a(0)) + 1)), ('', c.a(0) != c.this)]
        return inv(c.old)

    def ctored(c):
        x, nw = c.this, c.new
        out = []
        if not c.check:
            out += [('', fresh(c)), ('', LEVEL(x) == If(c.a(0) == 0, 0, LEVEL(c.a(0)) + 1)), ('', Sel(c.old(POLL), x) == 0)]
        out += inv(nw)
        for f in NODE:
            out.append(('%s of other directories stays' % f.split('.')[-1], FA(r, Implies(r != x, Sel(nw(f), r) == Sel(c.old(f), r)), Sel(nw(f), r))))
        out += mono(c.old, nw)
        out += [('it belongs to its parent, its watch and is as recursive as asked', And(Sel(nw(PARENT), x) == c.a(0), Sel(nw(WATCH), x) == c.a(1), Sel(nw(RECD), x) == c.a(3))),
                ('its path is the one given, or below its parent', path(nw, x) == where(nw, c.old('$epoch'), x, c.a(0), c.a(2))),
                ('it tracks nothing yet', FA(nm, Not(has(Sel(nw(DIRS), x), nm)), has(Sel(nw(DIRS), x), nm)))]
        out.append(('its entries are looked at', Sel(nw(POLL), x) > Sel(c.old(POLL), x)))
        if c.check:
            out += reports(c, x, {'FilesCreated': c.a(4)})
        out.append(('silent unless asked', Implies(Not(c.a(4)), And(nw(ETN) == c.old(ETN), nw(ETR) == c.old(ETR)))))
        return out
    C(DG + '<ctor>', 5, requires=ctorreq, modifies=ALL, ensures=ctored, loops=LOOPS)

    def dtored(c):
        x = c.this
        out = sub(c.new, x) + below(c, x) + keepown(c, (PARENT, WATCH, RECD)) + mono(c.old, c.new)
        out.append(('nothing is reported unless the directory was deleted', Implies(Not(Sel(c.old(DELD), x)), And(c.new(ETN) == c.old(ETN), c.new(ETR) == c.old(ETR)))))
        E = Sel(c.old(DIRS), x)
        out.append(('every subdirectory is given up, as deleted if this one is', FA(nm, Implies(has(E, nm), Sel(c.new(FATE), at(E, nm)) == If(Sel(c.old(DELD), x), z3.IntVal(2), z3.IntVal(1))), at(E, nm))))
        if c.check:
            p = fs.strip1(g(fs.info(c.old('$epoch'), path(c.old, x)), 'Filepath'))
            gone = And(Sel(c.old(DELD), x), Not(fs.ok[''](c.old('$epoch'), fs.strip1(path(c.old, x)))))
            out += reports(c, x, {'FilesDeleted': gone, 'DirsDeleted': gone}, tracking=False)
        return out
    C(DG + '<dtor>', 0, requires=lambda c: sub(c.old, c.this, True), modifies=ALL, ensures=dtored, loops=LOOPS)

    def added(c):
        x = c.this
        O, N = Sel(c.old(DIRS), x), Sel(c.new(DIRS), x)
        b, n1 = Sel(c.old(ETN), x), Sel(c.new(ETN), x)
        out = std(c, (PARENT, WATCH, SNAP, RECD, DELD, DIFF, CLOG, CLN, FATE)) + [
            ('silent unless asked', Implies(Not(c.a(0)), And(c.new(ETN) == c.old(ETN), c.new(ETR) == c.old(ETR)))),
            ('nothing is tracked unless recursive', Implies(Not(Sel(c.old(RECD), x)), N == O)),
            ('what was tracked stays tracked', FA(nm, Implies(has(O, nm), has(N, nm)), has(O, nm), has(N, nm)))]
        if c.check:
            E = acc(Sel(c.old(SNAP), x), 'Files')
            out += children(c.old, c.new, c.old('$epoch'), x, c.a(0), lambda k: has(E, k))
        return out

    def childinv(part):
        def f(lc):
            cur, x = lc.cursor, tref(lc)
            if not lc.e.curfn.endswith('::addChildren') or not isinstance(cur, MapIter):
                return None
            E = acc(Sel(lc.new(SNAP), x), 'Files')
            if not (cur.place.path and cur.place.path[-1] == ('f', 'Files')):
                return None
            for lab, y in children(lc.old, lc.new, lc.old('$epoch'), x, lc.e.entryargs[0], lambda k: And(has(E, k), Sel(cur.vis, k))):
                if lab == part:
                    return y
        f.__name__ = part
        return f
    CHILD = ('only readable local directories, links only as far as the settings allow, are tracked', 'every readable local directory is tracked unless its path already is',
             'every link the settings allow is tracked unless its target already is', 'each is announced when asked', 'nothing else is announced')
    CHILDREN = tuple(childinv(t) for t in CHILD)

    def children(old, new, ep, x, asked, seen):
        O, N = Sel(old(DIRS), x), Sel(new(DIRS), x)
        E = acc(Sel(new(SNAP), x), 'Files')
        fresh_ = lambda k: And(has(N, k), Or(Not(has(O, k)), at(N, k) != at(O, k)))
        fi = lambda k: at(E, k)
        fp = lambda k: g(fi(k), 'Filepath')
        good = lambda k: And(fs.isdir(fi(k)), fs.readable(fi(k)), Not(fs.remote(ep, fp(k))))
        lp = lambda k: fs.strip(fp(k))
        li = lambda k: fs.info(ep, lp(k), True)
        tgt = lambda k: fs.adds(fs.rp(ep, g(li(k), 'Filepath')))
        link = lambda k: And(fs.islnk(li(k)), fs.rp_ok(ep, g(li(k), 'Filepath')), tgt(k) != empty)
        may = lambda k: And(old(FOLLOW), Or(And(old(FOLLOW), old(SCOPE)), prefix(fs._pdir(lp(k)), tgt(k))))
        known = lambda k, p: Or(has(N, k), Sel(new(INW), p))
        tr, n0, n1, rp = Sel(new(ETR), x), Sel(old(ETN), x), Sel(new(ETN), x), Sel(new(REP), x)
        name = w.acc(Sel(tr, j), 'name')
        rec = Sel(old(RECD), x)
        return list(zip(CHILD, [
            FA(nm, Implies(fresh_(nm), And(seen(nm), good(nm), Implies(link(nm), may(nm)))), at(N, nm), has(N, nm)),
            FA(nm, Implies(And(rec, seen(nm), good(nm), Not(link(nm))), known(nm, nm)), at(E, nm), has(E, nm)),
            FA(nm, Implies(And(rec, seen(nm), good(nm), link(nm), may(nm)), known(nm, tgt(nm))), at(E, nm), has(E, nm)),
            FA(nm, Implies(And(asked, fresh_(nm)), And(Sel(rp, nm) >= n0, Sel(rp, nm) < n1, Sel(tr, Sel(rp, nm)) == mk(new, x, nm, z3.IntVal(ADD), empty))), at(N, nm), has(N, nm)),
            And(n1 >= n0, Implies(Not(asked), n1 == n0), FA(j, Implies(And(j >= n0, j < n1), And(seen(name), has(N, name), Sel(rp, name) == j, Sel(tr, j) == mk(new, x, name, z3.IntVal(ADD), empty))), Sel(tr, j)),
                FA(j, Implies(j < n0, Sel(tr, j) == Sel(Sel(old(ETR), x), j)), Sel(tr, j)))]))

    def chreq(c):
        E = acc(Sel(c.old(SNAP), c.this), 'Files')
        return inv(c.old) + ([('', FA(nm, Implies(has(E, nm), fname(nm) == nm), has(E, nm), fname(nm)))] if c.check else [])   # entry names are bare
    C(DG + 'addChildren', 1, requires=chreq, modifies=ALL, ensures=added, loops=LOOPS + CHILDREN)
    C(DG + 'watchDir', 1, requires=req(), modifies=ALL, ensures=lambda c: [])

    # ---- one watch
    WF = (WID, WDIR, WLIS, WREC, WIMPL, WTREE)
    silent = lambda c: ('nothing is reported', And(c.new(ETN) == c.old(ETN), c.new(ETR) == c.old(ETR)))
    C(WG + 'watch', 0, requires=lambda c: inv(c.old), modifies=ALL, ensures=lambda c: inv(c.new) + mono(c.old, c.new) + [('its directory is polled', Sel(c.new(POLL), Sel(c.old(WTREE), c.this)) > Sel(c.old(POLL), Sel(c.old(WTREE), c.this)))])

    def wctor(c):
        x, nw = c.this, c.new
        out = inv(nw) + mono(c.old, nw) + [silent(c)]
        for f in WF:
            out.append(('%s of other watches stays' % f.split('.')[-1], FA(r, Implies(r != x, Sel(nw(f), r) == Sel(c.old(f), r)), Sel(nw(f), r))))
        t = Sel(nw(WTREE), x)
        return out + [('the watch is as asked, its path ends in a separator', And(Sel(nw(WID), x) == c.a(0), Sel(nw(WDIR), x) == fs.adds(c.a(1)), Sel(nw(WLIS), x) == c.a(2), Sel(nw(WREC), x) == c.a(4))),
                      ('it has a tree of its own, tracking below only if recursive', And(t != 0, Sel(nw(WATCH), t) == x, Sel(nw(RECD), t) == c.a(4), Sel(nw(PARENT), t) == 0,
                                                                                          Implies(Not(c.a(4)), FA(nm, Not(has(Sel(nw(DIRS), t), nm)), has(Sel(nw(DIRS), t), nm)))))]
    C(WG + '<ctor>', 5, requires=lambda c: inv(c.old), modifies=ALL + WF + ('Watcher.OldFileName',), ensures=wctor)
    C(WG + '<dtor>', 0, requires=lambda c: inv(c.old), modifies=ALL + (WTREE,), ensures=lambda c: inv(c.new) + mono(c.old, c.new) + [
        silent(c), ('its tree is given up', Implies(Sel(c.old(WTREE), c.this) != 0, Sel(c.new(FATE), Sel(c.old(WTREE), c.this)) == 1)),
        ('the other watches keep theirs', FA(r, Implies(r != c.this, Sel(c.new(WTREE), r) == Sel(c.old(WTREE), r)), Sel(c.new(WTREE), r)))])

    # ---- the list of watches
    def linv(get):
        v = get(LIST)
        rng = lambda t: And(t >= 0, t < n_(v))
        o = lambda t: el(v, t)
        ok = And(o(i) != 0, Sel(get('$alive'), o(i)), Sel(get(WID), o(i)) > 0, Sel(get(WID), o(i)) <= get(LASTID), Sel(get(WTREE), o(i)) != 0)
        return [('', n_(v) >= 0), ('', get(LASTID) >= 0),
                ('every listed watch is alive and has a positive id given out before', FA(i, Implies(rng(i), ok), o(i))),
                ('no two listed watches are the same or share an id', FA([i, j], Implies(And(rng(i), rng(j), i != j), And(o(i) != o(j), Sel(get(WID), o(i)) != Sel(get(WID), o(j)))), z3.MultiPattern(o(i), o(j))))]
    lq = lambda c: inv(c.old) + linv(c.old)

    def addw(c):
        nw, ep = c.new, c.old('$epoch')
        dir = fs.adds(c.a(0))
        fi = fs.info(ep, dir)
        lp = fs.strip(dir)
        li = fs.info(ep, lp, True)
        tgt = fs.adds(fs.rp(ep, g(li, 'Filepath')))
        link = And(fs.islnk(li), fs.rp_ok(ep, g(li, 'Filepath')), tgt != empty)
        rep = Or(anypath(c.old, dir), And(link, anypath(c.old, tgt)))
        code = If(Not(fs.isdir(fi)), -1, If(Not(fs.readable(fi)), -4, If(rep, -2, If(And(link, Not(allowed(c, fs._pdir(lp), tgt))), -3, 0))))
        O, N = c.old(LIST), nw(LIST)
        x = el(N, n_(O))
        fin = If(link, tgt, dir)
        return inv(nw) + linv(nw) + mono(c.old, nw) + [
            ('the error is that of the path, in order of precedence', Implies(code != 0, And(c.res == code, nw(CODE) == code))),
            ('a refused watch changes nothing', Implies(code != 0, And(N == O, nw(LASTID) == c.old(LASTID), nw(SNAP) == c.old(SNAP), nw(DIRS) == c.old(DIRS), *[nw(f) == c.old(f) for f in WF]))),
            ('otherwise a new id is given out', Implies(code == 0, And(c.res == c.old(LASTID) + 1, nw(LASTID) == c.res, c.res > 0))),
            ('one watch is listed in addition', Implies(code == 0, And(n_(N) == n_(O) + 1, FA(j, Implies(And(j >= 0, j < n_(O)), el(N, j) == el(O, j)), el(N, j))))),
            ('with the id returned, the resolved path, the listener and the recursion flag given',
             Implies(code == 0, And(Sel(nw(WID), x) == c.res, Sel(nw(WDIR), x) == fin, Sel(nw(WLIS), x) == c.a(1), Sel(nw(WREC), x) == c.a(2)))),
            ('the listed watches stay as they were', FA(i, Implies(And(i >= 0, i < n_(O)), And(*[Sel(nw(f), el(O, i)) == Sel(c.old(f), el(O, i)) for f in WF])), el(O, i))),
            silent(c)]
    C(FG + 'addWatch', 4, requires=lq, modifies=ALL + WF + ('Watcher.OldFileName', LIST, LASTID, CODE, TEXT, '$alive'), ensures=addw)

    def searching(part):
        def f(lc):
            cur, v = lc.cursor, lc.new(LIST)
            if not isinstance(cur, VecIter):
                return None
            if part == 'another id so far' and len(lc.e.entryargs) == 1:
                a0 = lc.e.entryargs[0]
                fl, want_ = (WID, a0) if z3.is_int(a0) else (WDIR, fs.adds(a0))
                return And(cur.idx >= 0, FA(i, Implies(And(i >= 0, i < cur.idx), Sel(lc.new(fl), el(v, i)) != want_), el(v, i)))
            if part == 'listed so far':
                ds = [y for kk, y in lc.cur.env.items() if not isinstance(kk, tuple) and z3.is_expr(y) and y.sort() == w.sort('std::vector<std::basic_string<char>>')]
                return And(cur.idx >= 0, *[And(n_(y) == cur.idx, FA(j, Implies(And(j >= 0, j < cur.idx), el(y, j) == Sel(lc.new(WDIR), el(v, j))), el(y, j))) for y in ds]) if ds else None
            if part == 'watches polled so far' and POLL in lc.moving:
                t = Sel(lc.new(WTREE), el(v, i))
                return And(cur.idx >= 0, FA(i, Implies(And(i >= 0, i < cur.idx), Sel(lc.new(POLL), t) > Sel(lc.old(POLL), t)), el(v, i)))
            return None
        f.__name__ = part
        return f

    def overall(part):
        def f(lc):
            if part == 'tree kept' and DIRS in lc.moving:
                return And(*[y for _, y in inv(lc.new)])
            if part == 'list kept' and (LIST in lc.moving or WTREE in lc.moving):
                return And(*[y for _, y in linv(lc.new)])
            if part == 'polls only added' and POLL in lc.moving:
                return FA(r, Sel(lc.new(POLL), r) >= Sel(lc.old(POLL), r), Sel(lc.new(POLL), r))
            if part == 'round starts' and BASE in lc.moving:
                return lc.new(BASE) == lc.new(POLL)
            return None
        f.__name__ = part
        return f
    SL = tuple(searching(t) for t in ('another id so far', 'listed so far', 'watches polled so far')) + tuple(overall(t) for t in ('tree kept', 'list kept', 'polls only added', 'round starts'))

    def remw(fld_, val):
        def f(c):
            nw, O, N = c.new, c.old(LIST), c.new(LIST)
            want_ = val(c.a(0))
            is_ = lambda t: Sel(c.old(fld_), el(O, t)) == want_
            k = z3.Int('k?')
            left = z3.Exists([k], And(k >= 0, k < n_(O), is_(k), n_(N) == n_(O) - 1, FA(j, el(N, j) == If(j < k, el(O, j), el(O, j + 1)), el(N, j))), patterns=[el(O, k)])
            none = FA(i, Implies(And(i >= 0, i < n_(O)), Not(is_(i))), el(O, i))
            return inv(nw) + linv(nw) + mono(c.old, nw) + [('exactly the watch asked for leaves the list, if there is one', Or(And(none, N == O), left)),
                                                           ('an unknown one changes nothing', Implies(none, And(N == O, nw(DIRS) == c.old(DIRS), nw(SNAP) == c.old(SNAP)))), silent(c)]
        return f
    for key, fl, val in (('removeWatch(long)', WID, lambda a: a), ('removeWatch(R<', WDIR, lambda a: fs.adds(a))):
        w.cache['rm:' + key] = Contract(FG + 'removeWatch', 1, requires=lq, modifies=ALL + (LIST, WTREE, '$alive'), ensures=remw(fl, val), loops=SL)
    C(FG + 'directories', 0, requires=lreq, loops=SL,
      ensures=lambda c: [('the paths of the listed watches, in order', And(n_(c.res) == n_(c.old(LIST)), FA(j, Implies(And(j >= 0, j < n_(c.res)), el(c.res, j) == Sel(c.old(WDIR), el(c.old(LIST), j))), el(c.res, j))))])

    def round_(c):
        v = c.old(LIST)
        t = Sel(c.old(WTREE), el(v, i))
        return inv(c.old) + linv(c.old) + [('every listed watch was polled in this round', FA(i, Implies(And(i >= 0, i < n_(v)), Sel(c.old(POLL), t) > Sel(c.old(BASE), t)), el(v, i)))]
    C('efsw::System::sleep', 1, requires=round_, modifies=ALL + WF + (LIST, LASTID, BASE, INIT, '$epoch', '$alive'), ensures=lambda c: inv(c.new) + linv(c.new) + [('', c.new(BASE) == c.new(POLL))])
    C(FG + 'run', 0, requires=lambda c: lq(c) + [('a round starts', c.old(BASE) == c.old(POLL))], modifies=ALL + WF + (LIST, LASTID, BASE, INIT, '$epoch', '$alive'), loops=SL, ensures=lambda c: [])
    return cs


def axioms(w):
    fs = fsmodel.get(w)
    w.strlit('')
    s = z3.Const('s?', w.Str)
    return fs.axioms() + [z3.ForAll([s], fs._fname(fs._fname(s)) == fs._fname(s), patterns=[fs._fname(fs._fname(s))])]


def mods(w):
    fs = fsmodel.get(w)
    m = fsmodel.models(w, fs)

    def report(e, this, args, n):
        x = this_of(e)
        rd = lambda v: e.read(v) if isinstance(v, Place) else v
        ref = this.ref if isinstance(this, ObjRef) else this
        a = [rd(v) for v in args]
        ev = ev_sort(w).constructor(0)(ref, a[0], a[1], a[2], a[3], a[4])
        tr, nn = e.hget(ETR), e.hget(ETN)
        b = Sel(nn, x)
        e.hset(ETR, z3.Store(tr, x, z3.Store(Sel(tr, x), b, ev)))
        e.hset(ETN, z3.Store(nn, x, b + 1))
        rp = e.hget(REP)
        e.hset(REP, z3.Store(rp, x, z3.Store(Sel(rp, x), a[2], b)))
    m['efsw::FileWatchListener::handleFileAction'] = report

    def delw(e, v, n):
        """a destroyed directory tracks nothing any more"""
        if e.branch(v == 0):
            return None
        fate = If(Sel(e.hget(DELD), v), z3.IntVal(2), z3.IntVal(1))
        e.destroy(v, 'efsw::DirWatcherGeneric')
        e.hset(FATE, z3.Store(e.hget(FATE), v, fate))
        D, X = e.hget(DIRS), e.hget(DELD)
        s = D.sort().range()
        emp = w.upd(Sel(D, v), 'dom', z3.K(w.Str, F))
        e.hset(DIRS, z3.Store(D, v, emp))
        e.hset(DELD, z3.Store(X, v, F))
        return None
    m['$delete efsw::DirWatcherGeneric'] = delw
    return m


SINGLE = {'FileWatcherGeneric', 'FileWatcherImpl', 'FileWatcher', 'FileWatcherInotify'}
OPTS = {'debug': bool(os.environ.get('VDEBUG')), 'singletons': SINGLE, 'dyn': {'FileWatcherImpl': 'FileWatcherGeneric'}, 'nolock': True, 'feas_facts': 60}
G = Group('generic', contracts, models=mods, ghosts=ghosts, axioms=axioms, opts=OPTS)
TASKS = [Task(G, DG + f) for f in ('handleAction', 'watch', 'createDirectory', 'removeDirectory', 'moveDirectory', 'changePath', 'resetDirectory', '<ctor>', '<dtor>', 'addChildren', 'pathInWatches')] + [Task(G, WG + 'watch'), Task(G, WG + 'pathInWatches'), Task(G, FG + 'pathInWatches'), Task(G, WG + '<ctor>'), Task(G, WG + '<dtor>'), Task(G, FG + 'addWatch'), Task(G, FG + 'directories'), Task(G, FG + 'run'),
  Task(G, FG + 'removeWatch', contract=lambda w: w.cache['rm:removeWatch(long)'], key='removeWatch(long)'), Task(G, FG + 'removeWatch', contract=lambda w: w.cache['rm:removeWatch(R<'], key='removeWatch(R<')]


def sel(*names):
    out = [t for t in TASKS if t.fn in names]
    assert {t.fn for t in out} == set(names)
    return out


TASKS_C06 = sel(DG + '<dtor>', WG + '<dtor>', FG + 'removeWatch', FG + 'directories', FG + 'run')
TASKS_C07 = sel(FG + 'addWatch', WG + '<ctor>', DG + 'pathInWatches', WG + 'pathInWatches', FG + 'pathInWatches')
TASKS_C08 = sel(DG + 'createDirectory', DG + 'addChildren', DG + 'resetDirectory', DG + '<ctor>', FG + 'addWatch')
