"""C09: the C API. Contracts of FileWatcherCWrapper.cpp.

Every call that leaves the wrapper (a FileWatcher method, a C callback) is
appended to a ghost log; a function's contract says what its log entry is."""
import os, z3
from core import FA, Place, VecIter, CStr, Ptr
from engine import Contract, And, Or, Not, If, Implies, T, F
from runner import Group, Task, Lemma

CBS, LISTG, CALLS, NCALLS, RETS, OPTS = '$cbs', 'glob.g_callbacks', '$calls', '$ncalls', '$rets', '$copts'
CW, CF, CP, CM = ('Watcher_CAPI.' + f for f in ('mWatcher', 'mFn', 'mParam', 'mFnMissedFa'))
FOLLOW, SCOPE = 'FileWatcher.mFollowSymlinks', 'FileWatcher.mOutOfScopeLinks'
Sel = z3.Select
ADD, RMD, RMI, WATCH, NEW, DEL, ACT, MISSED = range(1, 9)


class K:
    def __init__(self, w):
        self.w = w
        self.vt = 'std::vector<P<Watcher_CAPI>>'
        self.V = w.sort(self.vt)
        self.ot = 'std::vector<efsw::WatcherOption>'
        self.O = w.sort(self.ot)
        I, B, S = w.Int, w.Bool, w.Str
        self.Call = w._dt('Call', [('m', I), ('fw', I), ('id', I), ('dir', S), ('lis', I), ('flag', B), ('opts', self.O), ('name', S), ('act', I), ('old', S), ('par', I)])
        self.pos = z3.Function('posof', self.V, I, I)
        self.noopts = z3.Const('noopts', self.O)

    def len(self, v):
        return self.w.acc(v, 'len')

    def at(self, v, i):
        return Sel(self.w.acc(v, 'data'), i)

    def mem(self, v, r):
        p = self.pos(v, r)
        return And(p >= 0, p < self.len(v), self.at(v, p) == r)

    def distinct(self, v):
        i = z3.Int('i?')
        return FA(i, Implies(And(i >= 0, i < self.len(v)), self.pos(v, self.at(v, i)) == i), self.at(v, i))

    def call(self, m, fw, id=0, dir=None, lis=0, flag=F, opts=None, name=None, act=0, old=None, par=0):
        e = self.w.strlit('')
        iv = lambda x: z3.IntVal(x) if isinstance(x, int) else x.s if isinstance(x, CStr) else x
        return self.Call.constructor(0)(iv(m), iv(fw), iv(id), e if dir is None else iv(dir), iv(lis), flag, self.noopts if opts is None else opts,
                                        e if name is None else name, iv(act), e if old is None else old, iv(par))


def get(w):
    if 'K' not in w.cache:
        w.cache['K'] = K(w)
    return w.cache['K']


def ghosts(w):
    x = get(w)
    return {CBS: z3.ArraySort(w.Int, w.Bool), CALLS: z3.ArraySort(w.Int, x.Call), NCALLS: w.Int, RETS: z3.ArraySort(w.Int, w.Int),
            OPTS: w.sort('std::vector<efsw_watcher_option>'), '$alive': z3.ArraySort(w.Int, w.Bool)}


def axioms(w):
    x = get(w)
    v, i = z3.Const('v?', x.V), z3.Int('i?')
    # posof chooses an index of r in v (a definitional choice: such a function exists)
    return [FA([v, i], Implies(And(i >= 0, i < x.len(v)), x.mem(v, x.at(v, i))), x.at(v, i))]


def push_fact(x, v, r, nv):
    q = z3.Int('q?')
    return [FA(q, x.mem(nv, q) == Or(x.mem(v, q), q == r), x.pos(nv, q), x.pos(v, q)),
            Implies(And(x.distinct(v), Not(x.mem(v, r))), x.distinct(nv))]


def erase_fact(x, v, k, nv):
    q = z3.Int('q?')
    return [Implies(x.distinct(v), And(x.distinct(nv), FA(q, x.mem(nv, q) == And(x.mem(v, q), q != x.at(v, k)), x.pos(nv, q), x.pos(v, q))))]


def lemmas():
    def push(w):
        x = get(w)
        v, m, r, q, i = z3.Const('v', x.V), z3.Const('m', x.V), z3.Int('r'), z3.Int('q'), z3.Int('i')
        tm = z3.Function('term', w.Int, w.Bool)
        n = x.len(v)
        H = axioms(w) + [x.len(m) == n + 1, w.acc(m, 'data') == z3.Store(w.acc(v, 'data'), n, r), n >= 0] + \
            [tm(t) for t in (x.at(m, x.pos(v, q)), x.at(v, x.pos(m, q)), x.at(m, n), x.at(m, x.pos(m, q)))]
        out = [('membership grows by the element', H, g) for g in (Implies(x.mem(v, q), x.mem(m, q)), x.mem(m, r), Implies(x.mem(m, q), Or(x.mem(v, q), q == r)))]
        return out + [('a new element keeps the list free of repetitions', H + [x.distinct(v), Not(x.mem(v, r)), i >= 0, i < n + 1] +
                       [tm(t) for t in (x.at(m, i), x.at(v, i), x.at(v, x.pos(m, x.at(m, i))), x.at(m, x.pos(m, x.at(m, i))))], x.pos(m, x.at(m, i)) == i)]

    def erase(w):
        x = get(w)
        v, m, k, q, i = z3.Const('v', x.V), z3.Const('m', x.V), z3.Int('k'), z3.Int('q'), z3.Int('i')
        tm = z3.Function('term', w.Int, w.Bool)
        n, j = x.len(v), z3.Int('j?')
        H = axioms(w) + [x.len(m) == n - 1, k >= 0, k < n, x.distinct(v), FA(j, x.at(m, j) == If(j < k, x.at(v, j), x.at(v, j + 1)), x.at(m, j))]
        old = [tm(x.at(m, x.pos(v, q))), tm(x.at(m, x.pos(v, q) - 1)), tm(x.at(v, x.pos(v, q)))]
        new = [tm(x.at(m, x.pos(m, q)))]
        p = x.pos(m, x.at(m, i))
        return [('what stays was there', H + new, Implies(x.mem(m, q), x.mem(v, q))), ('the element erased is gone', H + new + [tm(x.at(v, k))], Implies(q == x.at(v, k), Not(x.mem(m, q)))),
                ('the others stay', H + old, Implies(And(x.mem(v, q), q != x.at(v, k)), x.mem(m, q))),
                ('erasing keeps the list free of repetitions', H + [i >= 0, i < n - 1, tm(x.at(m, i)), tm(x.at(m, p)), tm(x.at(v, i)), tm(x.at(v, i + 1)), tm(x.at(v, p)), tm(x.at(v, p + 1))], p == i)]
    return [Lemma(G, 'push_back and membership', push), Lemma(G, 'erase and membership', erase)]


def models(w):
    x = get(w)
    m = {}

    def pushed(e, v, nv, r):
        if nv.sort() == x.V:
            for f in push_fact(x, v, r, nv):
                e.fact(f)
    m['$pushed'] = pushed

    def erased(e, v, nv, k):
        if nv.sort() == x.V:
            for f in erase_fact(x, v, k, nv):
                e.fact(f)
    m['$erased'] = erased

    def log(e, c):
        n = e.hget(NCALLS)
        e.hset(CALLS, z3.Store(e.hget(CALLS), n, c))
        e.hset(NCALLS, n + 1)
        return Sel(e.hget(RETS), n)

    def indirect(e, f, args, n):
        """a C callback is called"""
        a = [v.s if isinstance(v, CStr) else (e.read(v) if isinstance(v, Place) else v) for v in args]
        if len(a) == 7:
            log(e, x.call(ACT, a[0], a[1], a[2], f, F, None, a[3], a[4], a[5], a[6]))
        elif len(a) == 3:
            log(e, x.call(MISSED, a[0], a[1], a[2], f))
        else:
            raise NotImplementedError
    m['$indirect'] = indirect

    def param(e, p):
        if p['t'] == 'P<efsw_watcher_option>':
            return VecIter(Place(('h', OPTS)), z3.IntVal(0))
    m['$param'] = param
    m['$log'] = log

    def new(e, n):
        if getattr(e, 'innew', False):
            return NotImplemented
        e.innew = True
        r = e.x_new(n)
        e.innew = False
        e.hset(CBS, z3.Store(e.hget(CBS), r, T))
        return r
    m['$new Watcher_CAPI'] = new
    return m


def contracts(w):
    x = get(w)
    cs = []
    r, q, i, j = (z3.Int(n) for n in ('r?', 'q?', 'i?', 'j?'))

    def C(name, ar, **kw):
        cs.append(Contract(name, ar, **kw))

    def logged(c, what):
        n = c.old(NCALLS)
        return [('exactly one call is passed on', c.new(NCALLS) == n + 1), ('to that watcher, with those arguments', Sel(c.new(CALLS), n) == what),
                ('earlier calls stay', FA(i, Implies(And(i >= 0, i < n), Sel(c.new(CALLS), i) == Sel(c.old(CALLS), i)), Sel(c.new(CALLS), i)))]
    LOG = (CALLS, NCALLS)
    ret = lambda c: Sel(c.old(RETS), c.old(NCALLS))
    # ---- the C++ API as the wrapper sees it
    FWN = 'efsw::FileWatcher::'
    C(FWN + 'addWatch', 4, modifies=LOG, result=ret, ensures=lambda c: logged(c, x.call(ADD, c.this, 0, c.a(0), c.a(1), c.a(2), c.a(3))))
    cs.append(Contract(FWN + 'removeWatch(long)', 1, modifies=LOG, ensures=lambda c: logged(c, x.call(RMI, c.this, c.a(0)))))
    C(FWN + 'removeWatch', 1, modifies=LOG, ensures=lambda c: logged(c, x.call(RMD, c.this, 0, c.a(0)) if c.a(0).sort() == w.Str else x.call(RMI, c.this, c.a(0))))
    C(FWN + 'watch', 0, modifies=LOG, ensures=lambda c: logged(c, x.call(WATCH, c.this)))
    C(FWN + '<ctor>', 1, modifies=LOG, ensures=lambda c: logged(c, x.call(NEW, c.this, flag=c.a(0))))

    def stillthere(c):
        if c.check:
            return []
        return [('no callback record of the watcher is destroyed before the watcher',
                 FA(r, Implies(And(Sel(c.e.hinit('$alive'), r), Sel(c.e.hinit(CBS), r), Sel(c.old(CW), r) == c.this), Sel(c.old('$alive'), r)), Sel(c.old('$alive'), r)))]
    C(FWN + '<dtor>', 0, modifies=LOG, requires=stillthere, ensures=lambda c: logged(c, x.call(DEL, c.this)))

    # ---- callback records
    def inv(g, G=LISTG):
        v = g(G)
        return [('the registered callback records are distinct', x.distinct(v)), ('length', x.len(v) >= 0),
                ('they are the live ones', FA(r, x.mem(v, r) == And(Sel(g('$alive'), r), Sel(g(CBS), r)), x.pos(v, r), Sel(g(CBS), r))),
                ('none is null', Not(Sel(g('$alive'), 0)))]
    same = lambda c, g, t: And(Sel(g(CW), t) == c.a(0), Sel(g(CF), t) == c.a(1), Sel(g(CP), t) == c.a(2), Sel(g(CM), t) == c.a(3))
    C('find_callback', 4, requires=lambda c: inv(c.old), ensures=lambda c: [
        ('a registered record of exactly that watcher, callback, parameter and missed-event callback', Implies(c.res != 0, And(x.mem(c.old(LISTG), c.res), same(c, c.old, c.res)))),
        ('none only if there is no such record', Implies(c.res == 0, FA(r, Implies(x.mem(c.old(LISTG), r), Not(same(c, c.old, r))), x.pos(c.old(LISTG), r))))])

    def taken(c):
        v = c.res
        return [('the records taken are distinct', x.distinct(v)), ('count', x.len(v) >= 0),
                ('they are those of the watcher', FA(r, x.mem(v, r) == And(x.mem(c.old(LISTG), r), Sel(c.old(CW), r) == c.a(0)), x.pos(v, r))),
                ('the others stay registered', FA(r, x.mem(c.new(LISTG), r) == And(x.mem(c.old(LISTG), r), Sel(c.old(CW), r) != c.a(0)), x.pos(c.new(LISTG), r))),
                ('the list stays free of repetitions', And(x.distinct(c.new(LISTG)), x.len(c.new(LISTG)) >= 0))]

    def tl(lc):
        vs = [v for kk, v in lc.cur.env.items() if z3.is_expr(v) and v.sort() == x.V]
        ks = [v for kk, v in lc.cur.env.items() if not isinstance(kk, tuple) and kk != 'this' and z3.is_expr(v) and z3.is_int(v)]
        return vs, ks, lc.new(LISTG), lc.init(LISTG)

    def t1(lc):
        vs, ks, g, g0 = tl(lc)
        if len(vs) != 1:
            return None
        return FA(r, x.mem(g, r) == And(x.mem(g0, r), Not(x.mem(vs[0], r))), x.pos(g, r), x.pos(g0, r), x.pos(vs[0], r))
    t1.__name__ = 'what was taken is no longer registered'

    def t2(lc):
        vs, ks, g, g0 = tl(lc)
        if len(vs) != 1:
            return None
        wp = lc.e.entryargs[0]
        return FA(r, Implies(x.mem(vs[0], r), And(Sel(lc.new(CW), r) == wp, x.mem(g0, r))), x.pos(vs[0], r))
    t2.__name__ = 'only records of the watcher are taken'

    def t3(lc):
        vs, ks, g, g0 = tl(lc)
        wp = lc.e.entryargs[0]
        return And(x.len(g) <= x.len(g0), *[And(k >= 0, k <= x.len(g), FA(j, Implies(And(j >= 0, j < k), Sel(lc.new(CW), x.at(g, j)) != wp), x.at(g, j))) for k in ks if not k.eq(wp)])
    t3.__name__ = 'records passed over are of other watchers'

    def t4(lc):
        vs, ks, g, g0 = tl(lc)
        return And(x.distinct(g), *[x.distinct(v) for v in vs])
    t4.__name__ = 'no repetitions'

    def f1(lc):
        g = lc.new(LISTG)
        a = lc.e.entryargs
        c = lc.cursor
        if c is None or len(a) != 4:
            return None
        return FA(j, Implies(And(j >= 0, j < c.idx), Not(And(*[Sel(lc.new(f), x.at(g, j)) == a[k] for k, f in enumerate((CW, CF, CP, CM))]))), x.at(g, j))
    f1.__name__ = 'records passed over differ'
    cs[-1].loops = (f1,)
    C('take_callbacks', 1, requires=lambda c: inv(c.old) + ([('a vector fits in memory', x.len(c.old(LISTG)) < 2**60)] if c.check else []), modifies=(LISTG,), ensures=taken, loops=(t1, t2, t3, t4))

    # ---- the C functions
    def addens(c, ix):
        A = lambda k: c.a(ix[k]) if ix.get(k) is not None else z3.IntVal(0)
        n = c.old(NCALLS)
        k = Sel(c.new(CALLS), n)
        f = lambda nm: w.acc(k, nm)
        nop = z3.If(A('n') > 0, A('n'), 0)
        lis, op = f('lis'), f('opts')
        ov = c.old(OPTS)
        o = Sel(w.acc(op, 'data'), i)
        return [('exactly one call is passed on', c.new(NCALLS) == n + 1),
                ('it adds a watch to that watcher', And(f('m') == ADD, f('fw') == A('w'))),
                ('for the same directory', f('dir') == A('dir').s),
                ('with the same recursion flag', f('flag') == (A('rec') != 0)),
                ('with as many options', w.acc(op, 'len') == nop),
                ('every option keeps its key and value', FA(i, Implies(And(i >= 0, i < nop), And(w.acc(o, 'mOption') == w.acc(Sel(w.acc(ov, 'data'), i), 'option'),
                                                                                               w.acc(o, 'mValue') == w.acc(Sel(w.acc(ov, 'data'), i), 'value'))), o)),
                ('the listener is a registered record of that watcher, callback, parameter and missed-event callback',
                 And(x.mem(c.new(LISTG), lis), Sel(c.new(CW), lis) == A('w'), Sel(c.new(CF), lis) == A('fn'), Sel(c.new(CP), lis) == A('par'), Sel(c.new(CM), lis) == A('mis'))),
                ('the id or error comes back', c.res == Sel(c.old(RETS), n))] + \
               [('records registered before stay as they were', FA(r, Implies(x.mem(c.old(LISTG), r), And(x.mem(c.new(LISTG), r), *[Sel(c.new(z), r) == Sel(c.old(z), r) for z in (CW, CF, CP, CM)])), x.pos(c.old(LISTG), r)))] + inv(c.new)

    def ol(lc):
        ov = lc.init(OPTS)
        vs = [v for kk, v in lc.cur.env.items() if z3.is_expr(v) and v.sort() == x.O]
        if len(vs) != 1:
            return None
        v = vs[0]
        o = Sel(w.acc(v, 'data'), i)
        return FA(i, Implies(And(i >= 0, i < w.acc(v, 'len')), And(w.acc(o, 'mOption') == w.acc(Sel(w.acc(ov, 'data'), i), 'option'),
                                                                  w.acc(o, 'mValue') == w.acc(Sel(w.acc(ov, 'data'), i), 'value'))), o)
    ol.__name__ = 'options copied so far'

    def ol2(lc):
        vs = [v for kk, v in lc.cur.env.items() if z3.is_expr(v) and v.sort() == x.O]
        a = lc.e.entryargs
        ks = [v for kk, v in lc.cur.env.items() if not isinstance(kk, tuple) and kk != 'this' and z3.is_expr(v) and z3.is_int(v)]
        if len(vs) != 1:
            return None
        # the counter is the one variable that equals the number copied
        ks = [k for k in ks if not any(z3.is_expr(t) and k.eq(t) for t in a)]
        return And(*[w.acc(vs[0], 'len') == k for k in ks[-1:]], *[Or(k <= a[5], k == 0) for k in ks[-1:]])
    ol2.__name__ = 'as many as counted'
    CHANGE = LOG + (LISTG, CBS, CW, CF, CP, CM)
    C('efsw_addwatch_withoptions', 8, requires=lambda c: inv(c.old) + [('the option array holds that many options', Or(c.a(5) <= 0, w.acc(c.old(OPTS), 'len') >= c.a(5)))],
      modifies=CHANGE, ensures=lambda c: addens(c, dict(w=0, dir=1, fn=2, rec=3, n=5, par=6, mis=7)), loops=(ol, ol2))

    def release(c):
        n = c.old(NCALLS)
        gone = lambda t: And(Sel(c.old(CBS), t), Sel(c.old('$alive'), t), Sel(c.old(CW), t) == c.a(0))
        return [('exactly the watcher is destroyed by the wrapper', c.new(NCALLS) == n + 1), ('that watcher', Sel(c.new(CALLS), n) == x.call(DEL, c.a(0))),
                ('every callback record of the watcher is destroyed, no other', FA(r, Implies(Sel(c.old(CBS), r), Sel(c.new('$alive'), r) == And(Sel(c.old('$alive'), r), Not(gone(r)))), Sel(c.new('$alive'), r)))] + inv(c.new)

    def rl(lc):
        c = lc.cursor
        if c is None or not isinstance(c, VecIter):
            return None
        v = lc.e.read(c.place)
        if v.sort() != x.V:
            return None
        al, al0 = lc.new('$alive'), lc.old('$alive')
        return FA(r, Sel(al, r) == And(Sel(al0, r), Not(And(x.mem(v, r), x.pos(v, r) < c.idx))), Sel(al, r))
    rl.__name__ = 'records passed over are destroyed'
    C('efsw_release', 1, requires=lambda c: inv(c.old) + [('the watcher is alive and no callback record', And(c.a(0) != 0, Sel(c.old('$alive'), c.a(0)), Not(Sel(c.old(CBS), c.a(0)))))],
      modifies=CHANGE, ensures=release, loops=(rl,))
    one = lambda f: dict(modifies=LOG, ensures=lambda c: logged(c, f(c)))
    C('efsw_create', 1, modifies=LOG, ensures=lambda c: logged(c, x.call(NEW, c.res, flag=c.a(0) != 0)))
    C('efsw_removewatch', 2, **one(lambda c: x.call(RMD, c.a(0), 0, c.a(1))))
    C('efsw_removewatch_byid', 2, **one(lambda c: x.call(RMI, c.a(0), c.a(1))))
    C('efsw_watch', 1, **one(lambda c: x.call(WATCH, c.a(0))))
    fw = lambda g, f, t: Sel(g(f), t)
    for nm, fld in (('efsw_follow_symlinks', FOLLOW), ('efsw_allow_outofscopelinks', SCOPE)):
        C(nm, 2, modifies=(fld,), ensures=lambda c, fld=fld: [('the setting of that watcher becomes the flag given, no other changes', c.new(fld) == z3.Store(c.old(fld), c.a(0), c.a(1) != 0))])
    for nm, fld in (('efsw_follow_symlinks_isenabled', FOLLOW), ('efsw_outofscopelinks_isallowed', SCOPE)):
        C(nm, 1, ensures=lambda c, fld=fld: [('the setting of that watcher', (c.res != 0) == Sel(c.old(fld), c.a(0)))])
    C('Watcher_CAPI::handleFileAction', 5, modifies=LOG, ensures=lambda c: logged(c, x.call(ACT, Sel(c.old(CW), c.this), c.a(0), c.a(1), Sel(c.old(CF), c.this), F, None, c.a(2), c.a(3), c.a(4), Sel(c.old(CP), c.this))))
    C('Watcher_CAPI::handleMissedFileActions', 2, modifies=LOG, ensures=lambda c: [
        ('no callback, no call', Implies(Sel(c.old(CM), c.this) == 0, c.new(NCALLS) == c.old(NCALLS))),
        ('its own callback, once', Implies(Sel(c.old(CM), c.this) != 0, And(*[g for _, g in logged(c, x.call(MISSED, Sel(c.old(CW), c.this), c.a(0), c.a(1), Sel(c.old(CM), c.this)))])))])
    C('efsw_addwatch', 5, requires=lambda c: inv(c.old), modifies=CHANGE, ensures=lambda c: addens(c, dict(w=0, dir=1, fn=2, rec=3, par=4)))
    return cs


G = Group('capi', contracts, models=models, ghosts=ghosts, axioms=axioms, opts={'nolock': True, 'tags': {'nothing'}, 'debug': bool(os.environ.get('VDEBUG'))})
TASKS = [Task(G, f) for f in ('find_callback', 'take_callbacks', 'efsw_addwatch_withoptions', 'efsw_addwatch', 'efsw_release', 'efsw_create', 'efsw_removewatch', 'efsw_removewatch_byid', 'efsw_watch',
                              'efsw_follow_symlinks', 'efsw_follow_symlinks_isenabled', 'efsw_allow_outofscopelinks', 'efsw_outofscopelinks_isallowed',
                              'Watcher_CAPI::handleFileAction', 'Watcher_CAPI::handleMissedFileActions')] + lemmas()
