"""Forward symbolic execution of the exported function bodies against contracts."""
import os, sys, itertools, z3, time, select, signal
T00 = time.time()
from core import *
from program import base_name, parse_type

And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies
T, F = z3.BoolVal(True), z3.BoolVal(False)


HQ = {}


def has_quant(f):
    i = f.get_id()
    if i not in HQ:
        HQ[i] = (f, z3.is_quantifier(f) or any(has_quant(x) for x in f.children()))   # f is kept so that its id stays its own
    return HQ[i][1]


def bounded(s, ms):
    """s.check() in a child process, because z3 does not always stop at its own time limit"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        c = b'?'
        try:
            r = s.check()
            c = b'u' if r == z3.unsat else b's' if r == z3.sat else b'?'
        finally:
            os.write(wr, c)
            os._exit(0)
    os.close(wr)
    try:
        ok, _, _ = select.select([rd], [], [], ms / 1000.0 * 1.3 + 1)
        c = os.read(rd, 1) if ok else b''
    finally:
        os.close(rd)
    if not c:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)
    return z3.unsat if c == b'u' else z3.sat if c == b's' else z3.unknown


class PathEnd(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Goto(Exception):
    def __init__(self, n):
        self.n = n


class NotPure(Exception):
    pass


class Obligation:
    def __init__(self, label, goal, pc, tags, line, fn):
        self.label, self.goal, self.pc, self.tags, self.line, self.fn = label, goal, pc, tags, line, fn
        self.status = None
        self.by = None
        self.t = 0.0
        self.detail = ''


SKN = itertools.count()
DUMP = os.environ.get('VDUMP')


def mark(t):
    """keeps a term in sight of the solver's triggers"""
    return z3.Function('seen_%s' % t.sort().name(), t.sort(), z3.BoolSort())(t)


def split(g):
    """conjuncts of a goal (each with hypotheses), pushed out of universal quantifiers and implications"""
    if z3.is_and(g):
        return [p for c in g.children() for p in split(c)]
    if z3.is_implies(g):
        return [([g.arg(0)] + h, p) for h, p in split(g.arg(1))]
    if z3.is_quantifier(g) and g.is_forall():
        n = g.num_vars()
        vs = [z3.Const('%s!sk%d' % (g.var_name(i), next(SKN)), g.var_sort(i)) for i in range(n)]
        ts = [mark(z3.substitute_vars(t, *reversed(vs))) for i in range(g.num_patterns()) for t in g.pattern(i).children()]
        return [(ts + h, p) for h, p in split(z3.substitute_vars(g.body(), *reversed(vs)))]
    if z3.is_eq(g) and z3.is_bool(g.arg(0)):
        return [([g.arg(0)] + h, p) for h, p in split(g.arg(1))] + [([g.arg(1)] + h, p) for h, p in split(g.arg(0))]
    return [([], g)]


def nz(d):
    return {k: v for k, v in d.items() if v and k[0] != '$'}


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return T
    return l[0] if len(l) == 1 else And(*l)


class CallCtx:
    """what a contract sees"""
    check = False        # True while the body itself is verified

    def __init__(self, eng, fn, this, args, oldh, newh, oldargs=None, newargs=None, res=None):
        self.e, self.fn, self.this, self.args = eng, fn, this, args
        self.w = eng.w
        self.oldh, self.newh = oldh, newh
        self.oa, self.na, self.res = oldargs, newargs, res
        self.othis = self.nthis = None

    def a(self, i):
        return self.oa[i]

    def a2(self, i):
        return self.na[i]

    def old(self, n):
        return self.oldh.get(n) if n in self.oldh else self.e.hinit(n)

    def new(self, n):
        return self.newh.get(n) if n in self.newh else self.e.hinit(n)


class Contract:
    name = None          # qualified base name
    arity = None
    requires = None      # f(c) -> [(label, expr)]
    ensures = None       # f(c) -> [(label, expr, tags)]
    result = None        # f(c) -> expr   (functional result)
    modifies = ()        # h-names, 'arg:i', 'this'
    loops = ()           # candidate generators  f(lc) -> [(name, expr)]
    trusted = False
    held = ()            # locks required
    acquires = ()        # locks the body may take besides those held
    pure = False
    axioms = None        # f(c)-> [facts]
    inline_at = ()
    returns_this = False
    call_result = None   # f(c) -> the value a caller gets, constrained by `ensures`

    def __init__(self, name, arity=None, **kw):
        self.name, self.arity = name, arity
        for k, v in kw.items():
            setattr(self, k, v)


class LoopCtx:
    def __init__(self, eng, cur, entry, cursor, node, h0, H=()):
        self.moving = [k for kind, k in H if kind == 'h']   # what the loop may change on the heap
        self.e, self.w = eng, eng.w
        self.cur, self.entry, self.cursor, self.node, self.h0 = cur, entry, cursor, node, h0

    def new(self, n):
        return self.cur.h[n] if n in self.cur.h else self.e.hinit(n)

    def old(self, n):
        return self.entry.h[n] if n in self.entry.h else self.e.hinit(n)

    def init(self, n):   # at function entry
        return self.h0[n] if n in self.h0 else self.e.hinit(n)


class Engine:
    def __init__(self, prog, world, contracts, lib, ghosts=None, opts=None):
        self.prog, self.w, self.lib = prog, world, lib
        self.contracts = {}
        for c in contracts:
            self.contracts[(c.name, c.arity)] = c
        self.keyed = any('Utf<' in k for k, _ in self.contracts)
        self.ghosts = ghosts or {}
        self.opts = opts or {}
        self.axioms = []
        self.obls = []
        self.seen = set()
        self.memo = {}
        self.loopmemo = {}
        self.quiet = 0
        self.curfn = None
        self.dyn = self.opts.get('dyn', {})      # static class -> dynamic class
        self.singletons = self.opts.get('singletons', set())
        self.guards = self.opts.get('guards', {})
        self.noted, self.curc = set(), None
        self.mem = self.opts.get('mem', False)
        self.used_contracts = set()
        self.inlined = set()
        self.stats = {'queries': 0, 'solver_s': 0.0}
        self.depth = 0
        self.dec, self.di, self.alts = [], 0, []
        self.ctxkey = ()
        self.evc = 0
        self.obc = 0
        self.line = 0
        self.loopinfo = []
        self.fnstack = []
        self._hs = {}
        self.lasttrue = {}

    # ------------------------------------------------------------ solver
    def check(self, fs, timeout=4000, mbqi=False):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('auto_config', False)
        s.set('smt.solve_eqs', False)   # it loses instances of quantified facts
        s.set('smt.mbqi', mbqi)
        for a in self.axioms:
            s.add(a)
        for f in fs:
            s.add(f)
        # only queries with many quantified facts have been seen to overrun
        r = bounded(s, timeout) if len(fs) > 25 and sum(1 for f in fs if has_quant(f)) > 25 else s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        return r

    def pcf(self):
        return [x[2] for x in pc_list(self.st.pc)]

    def feasible(self, extra):
        fs = self.pcf() + [extra]
        if len(fs) > self.opts.get('feas_facts', 10 ** 9):   # keeping an infeasible path is sound
            fs = [f for f in fs if not has_quant(f)]
        r = self.check(fs, timeout=self.opts.get('feas_ms', 1500))
        return r != z3.unsat

    def proves(self, goal, extra=(), timeout=4000):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        hyps = self.pcf() + list(extra)
        for hs, p in split(goal):
            t0 = time.time()
            rr = self.check(hyps + hs + [Not(p)], timeout=timeout)
            if os.environ.get('VTIME') and time.time() - t0 > 1:
                sys.stderr.write('      slow %.1f %s %s\n' % (time.time() - t0, rr, str(p)[:160].replace('\n', ' ')))
            if rr != z3.unsat:
                if DUMP:
                    self.dump(hyps + hs, p)
                return False
        return True

    def dump(self, hyps, p):
        s = z3.Solver()
        for x in list(self.axioms) + hyps + [Not(p)]:
            s.add(x)
        open('%s.%d.smt2' % (DUMP, self.stats['queries']), 'w').write('(set-logic ALL)\n' + s.to_smt2())
        print('   dumped', self.stats['queries'], str(p)[:300].replace('\n', ' '))

    # ------------------------------------------------------------ state helpers
    def fresh(self, hint, sort):
        self.st.n += 1
        return z3.Const('%s!%d' % (hint, self.st.n), sort)

    def fact(self, f):
        if not z3.is_true(f):
            self.st.pc = (self.st.pc, 'f', f)

    def bcond(self, f):
        if not z3.is_true(f):
            self.st.pc = (self.st.pc, 'b', f)

    def freshval(self, hint, t):
        n, a = parse_type(t)
        if t == 'P<char>':
            return CStr(self.fresh(hint + '_null', self.w.Bool), self.fresh(hint, self.w.Str))
        v = self.fresh(hint, self.w.sort(t))
        self.range(v, t)
        return v

    def range(self, v, t):
        """type-range facts"""
        if t in INT_RANGES and t != 'bool' and not self.w.bv:
            lo, hi = INT_RANGES[t]
            self.fact(And(v >= lo, v <= hi))
        elif parse_type(t)[0] == 'std::vector':
            self.fact(self.w.acc(v, 'len') >= 0)

    def hsort(self, n):
        if n in self._hs:
            return self._hs[n]
        if n in self.ghosts:
            s = self.ghosts[n]
        else:
            cls, f = n.rsplit('.', 1)
            if cls == 'glob':
                g = self.prog.globals.get(f)
                s = self.w.sort(g['t'])
            else:
                rec = self.prog.recs.get('efsw::' + cls) or self.prog.recs.get(cls)
                ft = {x['n']: x['t'] for x in rec['fields']}[f]
                s = self.w.sort(ft)
                if not self.is_single(rec['name']):
                    s = z3.ArraySort(self.w.Int, s)
        self._hs[n] = s
        return s

    def is_single(self, cls):
        return short(cls) in self.singletons

    def hinit(self, n):
        return z3.Const(n + '@0', self.hsort(n))

    def hget(self, n):
        v = self.st.h.get(n)
        return self.hinit(n) if v is None else v

    def hset(self, n, v):
        self.st.h[n] = v

    def access(self, n, write):
        g = self.guards.get(n)
        if g and not self.opts.get('nolock'):
            ex = self.opts.get('exclusive')
            lab = '%s of %s holds %s' % ('write' if write else 'read', n, g)
            if ex and not self.st.held.get(g):
                self.oblige(lab + ' or comes after the thread is gone', ex(self), ('lock',), assume=False)
            else:
                self.lockobl(lab, bool(self.st.held.get(g)))

    def lockobl(self, label, ok, tag='lock'):
        if not ok:
            self.oblige(label, F, (tag,))
        elif not self.quiet and (label, self.line, self.curfn) not in self.noted:
            self.noted.add((label, self.line, self.curfn))
            self.oblige(label, T, (tag,))

    # ------------------------------------------------------------ obligations
    def oblige(self, label, goal, tags=(), assume=True):
        self.obc += 1
        if not self.quiet:
            key = (self.ctxkey, tuple(self.dec[:self.di]), self.obc)
            if key not in self.seen:
                self.seen.add(key)
                if not (self.opts.get('tags') and tags and not (set(tags) & self.opts['tags'])):
                    o = Obligation(label, goal, self.pcf(), tags, self.line, self.curfn)
                    self.obls.append(o)
        if assume and not z3.is_false(goal):
            self.fact(goal)

    # ------------------------------------------------------------ branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.di < len(self.dec):
            d = self.dec[self.di]
            self.di += 1
        else:
            ft = self.feasible(c)
            if not ft:
                d = False
                self.dec.append(d)
            else:
                ff = self.feasible(Not(c))
                d = True
                self.dec.append(d)
                if ff:
                    self.alts.append(len(self.dec) - 1)
            self.di += 1
        self.bcond(c if d else Not(c))
        return d

    def explore(self, thunk, limit=3000):
        """run thunk on every feasible path from a copy of the current state"""
        base = self.st
        saved = (self.dec, self.di, self.alts, self.ctxkey, self.evc, self.obc)
        nk = self.ctxkey + (tuple(self.dec[:self.di]), self.evc)
        results, work, maxn = [], [[]], base.n
        while work:
            pre = work.pop()
            self.st = base.copy()
            self.dec, self.di, self.alts, self.ctxkey, self.evc, self.obc = list(pre), 0, [], nk, 0, 0
            try:
                v = thunk()
                out = ('norm', v)
            except Ret as r:
                out = ('ret', r.v)
            except Brk:
                out = ('brk', None)
            except Cont:
                out = ('cont', None)
            except Goto as g:
                out = ('goto', g.n)
            except PathEnd:
                out = None
            for a in self.alts:
                work.append(self.dec[:a] + [False])
            maxn = max(maxn, self.st.n)
            if out is not None:
                results.append((out, self.st))
            if len(results) > limit:
                raise Unsupported('too many paths')
        self.dec, self.di, self.alts, self.ctxkey, self.evc, self.obc = saved
        self.evc += 1
        self.st = base
        self.st.n = maxn + 1
        return results

    def delta(self, st, base):
        """pc entries added since base"""
        out, p = [], st.pc
        while p is not base:
            out.append((p[1], p[2]))
            p = p[0]
        out.reverse()
        return out

    def pure_eval(self, thunk, assume=None):
        key = ('pure', self.ctxkey, tuple(self.dec[:self.di]), self.evc)
        base = self.st
        basepc = base.pc
        if key in self.memo:
            val, facts, maxn, err = self.memo[key]
            self.evc += 1
            base.n = maxn
            if err:
                raise NotPure()
            for f in facts:
                self.fact(f)
            return val

        def run():
            if assume is not None:
                self.fact(assume)
            p0 = self.st.pc
            v = thunk()
            return (p0, v)
        res = self.explore(run)
        facts, val, err = [], None, False
        for (k, pv), st in res:
            if k != 'norm':
                err = True
                break
            for n, x in st.h.items():
                y = base.h.get(n)
                if y is None or (x is not y and not (z3.is_expr(x) and x.eq(y))):
                    if not (y is None and z3.is_expr(x) and x.eq(self.hinit(n))):
                        err = True
            for n, x in base.env.items():
                if st.env.get(n) is not x:
                    err = True
            if nz(st.held) != nz(base.held):
                err = True
        if not res:
            # no feasible path
            err = False
            val = None
        if not err:
            bools = []
            for i, ((k, (p0, v)), st) in enumerate(res):
                d = self.delta(st, p0)
                g = conj([x for kind, x in d if kind == 'b'])
                if assume is not None:
                    ga = And(assume, g)
                else:
                    ga = g
                for kind, x in d:
                    if kind == 'f':
                        facts.append(x if z3.is_true(ga) else Implies(ga, x))
                bools.append((g, v))
            if bools:
                vals = [v for _, v in bools]
                if all(z3.is_expr(v) for v in vals):
                    if all(z3.is_bool(v) for v in vals):
                        val = z3.simplify(Or(*[And(g, v) for g, v in bools])) if len(bools) > 1 else vals[0]
                    else:
                        val = vals[-1]
                        for g, v in reversed(bools[:-1]):
                            val = If(g, v, val)
                elif len(vals) == 1:
                    val = vals[0]
                else:
                    err = True
            if val is None and not err:
                self.memo[key] = (None, [], self.st.n, False)
                raise PathEnd()
        self.memo[key] = (val, facts, self.st.n, err)
        if err:
            raise NotPure()
        for f in facts:
            self.fact(f)
        return val

    # ------------------------------------------------------------ places
    def read(self, p):
        if not isinstance(p, Place):
            return p
        r = p.root
        if r[0] == 'env':
            if r[1] not in self.st.env:
                raise Unsupported('unknown variable %s' % (r[1],))
            v = self.st.env[r[1]]
            if isinstance(v, Place) and r[1] is not None:
                return self.read(Place(v.root, v.path + p.path))
        elif r[0] == 'h':
            self.access(r[1], False)
            v = self.hget(r[1])
        elif r[0] == 'heap':
            v = z3.Select(self.hget(r[1]), r[2])
        else:
            raise Unsupported('root %s' % (r,))
        for el in p.path:
            v = self.step(v, el)
        return v

    def step(self, v, el):
        if el[0] == 'f':
            if isinstance(v, dict):
                return v[el[1]]
            return self.w.acc(v, el[1])
        if el[0] == 'mv':
            return z3.Select(self.w.acc(v, 'val'), el[1])
        if el[0] == 'ix':
            if isinstance(v, list):
                return v[el[1]]
            return z3.Select(self.w.acc(v, 'data'), el[1])
        if el[0] == 'ch':
            return self.lib.charat(self, v, el[1])
        if el[0] == 'entry':
            val = z3.Select(self.w.acc(v, 'val'), el[1])
            ks = self.w.tn_of_sort(el[1].sort())
            return self.w.pair_of(el[1], val)
        raise Unsupported('path ' + str(el))

    def write(self, p, x):
        if isinstance(p, ObjRef):
            raise Unsupported('assign to heap object')
        r = p.root
        if r[0] == 'env':
            v = self.st.env.get(r[1])
            if isinstance(v, Place):
                return self.write(Place(v.root, v.path + p.path), x)
            self.st.env[r[1]] = self.setpath(v, p.path, x)
        elif r[0] == 'h':
            self.access(r[1], True)
            self.hset(r[1], self.setpath(self.hget(r[1]), p.path, x))
        elif r[0] == 'heap':
            a = self.hget(r[1])
            nv = self.setpath(z3.Select(a, r[2]) if p.path else None, p.path, x)
            self.hset(r[1], z3.Store(a, r[2], nv))
        else:
            raise Unsupported('write root')

    def setpath(self, v, path, x):
        if not path:
            return x
        el, rest = path[0], path[1:]
        if el[0] == 'f':
            if isinstance(v, dict):
                d = dict(v)
                d[el[1]] = self.setpath(v[el[1]], rest, x)
                return d
            return self.w.upd(v, el[1], self.setpath(self.w.acc(v, el[1]) if rest else None, rest, x))
        if el[0] == 'mv':
            val = self.w.acc(v, 'val')
            return self.w.upd(v, 'val', z3.Store(val, el[1], self.setpath(z3.Select(val, el[1]) if rest else None, rest, x)))
        if el[0] == 'ix':
            if isinstance(v, list):
                raise Unsupported('array write')
            d = self.w.acc(v, 'data')
            return self.w.upd(v, 'data', z3.Store(d, el[1], self.setpath(z3.Select(d, el[1]) if rest else None, rest, x)))
        raise Unsupported('write path ' + str(el))

    def newtmp(self, v):
        self.st.n += 1
        k = ('tmp', self.st.n)
        self.st.env[k] = v
        return Place(('env', k))

    def ghost0(self, k, sort):
        """current value of a ghost variable; a named constant before its first update"""
        if k not in self.ghostinit:
            self.ghostinit[k] = z3.Const('%s0_%d' % (k[0], len(self.ghostinit)), sort)
        v = self.st.env.get(k)
        return self.ghostinit[k] if v is None else v

    # ------------------------------------------------------------ types
    def isheap(self, t):
        return t in self.prog.recs and t not in self.w.value_classes and not t.startswith('efsw::Atomic')

    def default_value(self, t, zero=False):
        n, a = parse_type(t)
        if t == STR_T:
            return self.w.strlit('')
        if n == 'std::vector':
            s = self.w.sort(t)
            return s.constructor(0)(z3.IntVal(0), self.fresh('vecdata', z3.ArraySort(self.w.Int, self.w.sort(a[0]))))
        if n in ('std::map', 'std::unordered_map'):
            s = self.w.sort(t)
            return s.constructor(0)(z3.K(self.w.sort(a[0]), F), self.fresh('mapval', z3.ArraySort(self.w.sort(a[0]), self.w.sort(a[1]))))
        if t in self.w.value_classes:
            r = self.prog.recs[t]
            ctor = [f for f in self.prog.by_name.get(t + '::<ctor>', []) if not f['params']]
            if ctor:
                return self.construct(ctor[0]['key'], t, [], {'pt': []})
            return self.w.sort(t).constructor(0)(*[self.default_value(f['t'], zero) for f in r['fields']])
        if n == 'std::pair':
            return self.w.sort(t).constructor(0)(self.default_value(a[0], True), self.default_value(a[1], True))
        if t in self.w.extern_recs:
            if zero:
                return self.w.sort(t).constructor(0)(*[self.default_value(x, True) for _, x in self.w.extern_recs[t]])
            return self.freshval('uninit_' + t, t)
        if t == 'bool':
            return F if zero else self.fresh('uninit', self.w.Bool)
        if self.w.isint(t):
            return self.ival(0, t) if zero else self.freshval('uninit', t)
        if t == 'P<char>':
            return CStr(T, self.w.strlit('')) if zero else CStr(self.fresh('un', self.w.Bool), self.fresh('uninit', self.w.Str))
        if n == 'P':
            return z3.IntVal(0) if zero else self.fresh('uninit', self.w.Int)
        if 'iterator' in t:
            return Opaque('uninitialised iterator')
        if n == 'A':
            if self.opts.get('arrays') and self.w.isint(a[0]):
                s = self.w.sort('std::vector<%s>' % a[0])
                return s.constructor(0)(z3.IntVal(int(a[1])), self.fresh('arr', z3.ArraySort(self.w.Int, self.w.Int)))
            return Opaque('array')
        if t in ('std::recursive_mutex', 'std::function<F<void>>') or n in ('std::unique_ptr',):
            return Opaque(t)
        if n in ('std::atomic', 'efsw::Atomic'):
            return self.default_value(a[0], zero)
        if t in ('DIR', 'FILE', '__dirstream', '_IO_FILE'):
            return Opaque(t)
        raise Unsupported('default value of ' + t)

    def ival(self, v, t):
        return z3.IntVal(int(v))

    # ------------------------------------------------------------ expressions
    def tobool(self, v):
        if isinstance(v, CStr):
            return Not(v.null)
        if isinstance(v, Ptr):
            return T
        if isinstance(v, (bool,)):
            return T if v else F
        if isinstance(v, Opaque):
            raise Unsupported('opaque condition ' + v.what)
        if z3.is_bool(v):
            return v
        if z3.is_int(v):
            return v != 0
        if z3.is_bv(v):
            return v != 0
        raise Unsupported('bool of %s' % (v,))

    def ev(self, n):
        v = self.ev0(n)
        if isinstance(v, Place):
            return self.read(v)
        return v

    def ev0(self, n):
        if n is None:
            raise Unsupported('null expression')
        if 'l' in n:
            self.line = n['l']
        m = getattr(self, 'x_' + n['k'], None)
        if not m:
            raise Unsupported('expression kind ' + n['k'] + ' ' + str(n.get('what', '')))
        return m(n)

    def lv(self, n):
        k = n['k']
        if k in ('cond',):
            if self.branch(self.tobool(self.ev(n['c']))):
                return self.lv(n['a'])
            return self.lv(n['b'])
        v = self.ev0(n) if k not in ('var', 'mem', 'idx', 'gvar', 'un') else getattr(self, 'l_' + k)(n)
        if isinstance(v, (Place, ObjRef)):
            return v
        return self.newtmp(v)

    def x_int(self, n):
        t = n['t']
        if t == 'bool':
            return T if n['v'] != '0' else F
        if self.w.bv:
            return self.bvval(int(n['v']), t)
        return z3.IntVal(int(n['v']))

    def x_null(self, n):
        return z3.IntVal(0)

    def x_zero(self, n):
        return self.default_value(n['t'], zero=True)

    def x_str(self, n):
        return CStr(F, self.w.strlit(n['v']))

    def x_fn(self, n):
        return Opaque('fn ' + n['fn'])

    def x_tmp(self, n):
        return self.ev0(n['e'])

    def x_var(self, n):
        return self.l_var(n)

    def l_var(self, n):
        i = n['id']
        v = self.st.env.get(i)
        if v is None:
            raise Unsupported('variable %s not in scope' % n.get('n'))
        if isinstance(v, (Place, ObjRef)):   # reference
            return v
        return Place(('env', i), (), n.get('vt'))

    def x_gvar(self, n):
        return self.l_gvar(n)

    def l_gvar(self, n):
        r = self.lib.gvar(self, n)
        if r is not None:
            return r
        if n.get('static_local') and n['id'] in self.st.env:
            return Place(('env', n['id']))
        return Place(('h', 'glob.' + n['n']))

    def x_mem(self, n):
        return self.l_mem(n)

    def l_mem(self, n):
        m = self.lib.models.get('$member ' + str(n.get('cls')))
        if m:
            return m(self, n)
        if n['arrow']:
            b = self.ev(n['b'])
            if isinstance(b, Ptr):
                b = b.place
            elif z3.is_expr(b):
                b = self.deref(b, n['cls'])
            elif isinstance(b, dict):
                return b[n['f']]
        else:
            b = self.lv(n['b'])
        return self.member(b, n['f'], n['cls'])

    def deref(self, ref, cls):
        if self.mem and not self.is_single(cls):
            self.oblige('dereferenced %s is alive' % short(cls), z3.Select(self.hget('$alive'), ref), ('mem',))
        return ObjRef(ref, cls)

    def member(self, b, f, cls):
        if isinstance(b, ObjRef):
            n = short(cls) + '.' + f
            if self.is_single(cls):
                return Place(('h', n))
            return Place(('heap', n, b.ref))
        if isinstance(b, Place):
            if b.path and b.path[-1][0] == 'entry':
                if f == 'first':
                    return b.path[-1][1]
                return Place(b.root, b.path[:-1] + (('mv', b.path[-1][1]),))
            return b.sub(('f', f))
        if isinstance(b, dict):
            return b[f]
        if z3.is_expr(b):
            return self.w.acc(b, f)
        raise Unsupported('member of %s' % (b,))

    def x_this(self, n):
        return self.st.env['this']

    def x_idx(self, n):
        return self.l_idx(n)

    def l_idx(self, n):
        a = self.ev(n['a'])
        i = self.ev(n['b'])
        return self.lib.index(self, a, i, n)

    def x_cast(self, n):
        ck = n['ck']
        if ck == 'LValueToRValue':
            return self.ev(n['e'])
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'ToVoid'):
            return self.ev0(n['e'])
        if ck == 'NullToPointer':
            return CStr(T, self.w.strlit('')) if n['t'] == 'P<char>' else z3.IntVal(0)
        if ck == 'ArrayToPointerDecay':
            v = self.ev0(n['e'])
            if isinstance(v, Place):
                r = self.read(v)
                if self.opts.get('arrays') and n['e']['t'].startswith('A<') and z3.is_expr(r) and r.sort() != self.w.Str:
                    return VecIter(v, z3.IntVal(0))
                return r if isinstance(r, (Opaque, CStr)) else Ptr(v) if not z3.is_expr(r) else (CStr(F, r) if r.sort() == self.w.Str else Ptr(v))
            return v
        v = self.ev(n['e'])
        if ck in ('PointerToBoolean', 'IntegralToBoolean'):
            return self.tobool(v)
        if ck == 'IntegralCast':
            return self.conv(v, n['e']['t'], n['t'])
        if ck in ('BitCast', 'IntegralToPointer', 'PointerToIntegral'):
            return self.lib.bitcast(self, v, n)
        raise Unsupported('cast ' + ck)

    def conv(self, v, ft, tt):
        if ft == 'bool' or z3.is_bool(v):
            if self.w.bv:
                return If(v, self.bvval(1, tt), self.bvval(0, tt))
            if tt == 'bool':
                return v
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if not z3.is_expr(v):
            return v
        if self.w.bv:
            return self.bvconv(v, ft, tt)
        if tt.startswith('E<') or ft == tt:
            return v
        if ft.startswith('E<'):
            ft = 'int'
        lo, hi = INT_RANGES[tt]
        l2, h2 = INT_RANGES.get(ft, (-2**63, 2**64))
        if lo <= l2 and hi >= h2:
            return v
        if z3.is_int_value(v) and lo <= v.as_long() <= hi:
            return v
        m = hi - lo + 1
        if lo == 0 and h2 <= hi:     # signed -> unsigned same or wider
            return If(v < 0, v + m, v)
        self.st.n += 0
        r = z3.If(And(v >= lo, v <= hi), v, (v - lo) % m + lo)
        return r

    def x_un(self, n):
        op = n['op']
        if op == '!':
            return Not(self.tobool(self.ev(n['e'])))
        if op == '*':
            return self.l_un(n)
        if op == '&':
            p = self.lv(n['e'])
            return self.addressof(p)
        if op in ('++', '--'):
            p = self.lv(n['e'])
            old = self.read(p)
            new = self.arith('+' if op == '++' else '-', old, self.one(old), n['t'])
            self.write(p, new)
            return old if n['post'] else p
        v = self.ev(n['e'])
        if op == '-':
            return -v
        if op == '+':
            return v
        if op == '~' and self.w.bv:
            return ~v
        raise Unsupported('unary ' + op)

    def one(self, v):
        if z3.is_bv(v):
            return z3.BitVecVal(1, v.size())
        return z3.IntVal(1)

    def addressof(self, p):
        if isinstance(p, ObjRef):
            return p.ref
        if p.path and p.path[-1][0] == 'ch':
            return Opaque('char ptr')
        return Ptr(p)

    def l_un(self, n):
        op = n['op']
        if op == '*':
            v = self.ev(n['e'])
            return self.derefval(v, n['t'])
        if op in ('++', '--') and not n['post']:
            return self.x_un(n)
        raise Unsupported('lvalue unary ' + op)

    def derefval(self, v, t):
        if isinstance(v, Ptr):
            return v.place
        if isinstance(v, VecIter):
            return self.lib.iterderef(self, v)
        if isinstance(v, MapIter):
            return self.lib.iterderef(self, v)
        if z3.is_expr(v) and self.isheap(t):
            return self.deref(v, t)
        raise Unsupported('deref of %s' % (v,))

    def x_bin(self, n):
        op = n['op']
        if op in ('&&', '||'):
            a = self.tobool(self.ev(n['a']))
            sa = z3.simplify(a)
            if z3.is_true(sa):
                return T if op == '||' else self.tobool(self.ev(n['b']))
            if z3.is_false(sa):
                return F if op == '&&' else self.tobool(self.ev(n['b']))
            g = a if op == '&&' else Not(a)
            try:
                b = self.pure_eval(lambda: self.tobool(self.ev(n['b'])), g)
                return And(a, b) if op == '&&' else Or(a, b)
            except NotPure:
                pass
            except PathEnd:
                self.fact(Not(g))
                return F if op == '&&' else T
            if self.branch(a):
                return T if op == '||' else self.tobool(self.ev(n['b']))
            return F if op == '&&' else self.tobool(self.ev(n['b']))
        if op == ',':
            self.ev0(n['a'])
            return self.ev0(n['b'])
        a, b = self.ev(n['a']), self.ev(n['b'])
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        if op in ('==', '!='):
            e = self.lib.equal(self, a, b)
            return e if op == '==' else Not(e)
        r = self.lib.binop(self, op, a, b, n)
        if r is not None:
            return r
        if op in ('<', '<=', '>', '>='):
            t = n['a']['t']
            if z3.is_bool(a):
                a = If(a, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(b):
                b = If(b, z3.IntVal(1), z3.IntVal(0))
            if self.w.bv and z3.is_bv(a):
                if self.signed(t):
                    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
                return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](a, b)
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return self.arith(op, a, b, n['t'])

    def arith(self, op, a, b, t):
        r = self.lib.arith(self, op, a, b, t)
        if r is not None:
            return r
        if self.w.bv and z3.is_bv(a):
            return self.bvarith(op, a, b, t)
        if z3.is_bool(a):
            a = If(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b):
            b = If(b, z3.IntVal(1), z3.IntVal(0))
        uns = t in INT_RANGES and INT_RANGES[t][0] == 0
        if op == '+':
            if uns and self.opts.get('bits'):
                return (a + b) % (INT_RANGES[t][1] + 1)
            if uns and z3.is_int_value(b) and b.as_long() > 2**31:   # adding npos and the like
                m = INT_RANGES[t][1] + 1
                return (a + b) % m
            return a + b
        if op == '-':
            if uns:
                m = INT_RANGES[t][1] + 1
                return If(a >= b, a - b, a - b + m)
            return a - b
        if op == '*':
            return a * b
        if self.opts.get('bits'):
            a, b = z3.simplify(a), z3.simplify(b)
        if op in ('&', '|', '^', '<<', '>>', '/', '%'):
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                v = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y,
                     '/': lambda: x // y, '%': lambda: x % y}[op]()
                return z3.IntVal(v)
            if self.opts.get('bits') and op in ('&', '|', '<<', '>>'):
                r = self.bitarith(op, a, b, t)
                if r is not None:
                    return r
            if op == '&':
                if z3.is_int_value(a):
                    a, b = b, a
                return self.lib.band(self, a, b)
            if op == '|' and z3.is_int_value(b) and b.as_long() == 0:
                return a
            if op == '/' and z3.is_int_value(b) and b.as_long() > 0 and uns:
                return a / b
            if op == '%' and z3.is_int_value(b) and b.as_long() > 0 and uns:
                return a % b
        raise Unsupported('arithmetic ' + op)

    def bitarith(self, op, a, b, t):
        """bit operations with one constant operand on a non-negative number, as arithmetic"""
        if op in ('&', '|') and z3.is_int_value(a):
            a, b = b, a
        if not z3.is_int_value(b):
            return None
        c = b.as_long()
        if c < 0:
            return None
        uns = INT_RANGES[t][0] == 0
        self.oblige('operand of a bit operation is not negative', a >= 0, ('mem',))
        if op == '<<':
            r = a * (1 << c)
            if uns:
                return r % (INT_RANGES[t][1] + 1)
            self.oblige('shift does not overflow', r <= INT_RANGES[t][1], ('mem',))
            return r
        if op == '>>':
            return a / (1 << c)

        def run(lo, hi):
            x = a / (1 << lo) if lo else a
            if hi is not None:
                x = x % (1 << (hi - lo))
            return x * (1 << lo)
        bits = [i for i in range(c.bit_length()) if c >> i & 1]
        runs = []
        for i in bits:
            if runs and runs[-1][1] == i:
                runs[-1][1] = i + 1
            else:
                runs.append([i, i + 1])
        if op == '&':
            return z3.Sum(*[run(lo, hi) for lo, hi in runs]) if runs else z3.IntVal(0)
        gaps, at = [], 0
        for lo, hi in runs:
            if lo > at:
                gaps.append((at, lo))
            at = hi
        gaps.append((at, None))
        return z3.Sum(z3.IntVal(c), *[run(lo, hi) for lo, hi in gaps])

    # bit-vector mode
    WID = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
           'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'wchar_t': 32, 'char32_t': 32, 'char16_t': 16}

    def signed(self, t):
        return t.startswith('E<') or INT_RANGES[t][0] < 0

    def width(self, t):
        return 32 if t.startswith('E<') else self.WID[t]

    def bvval(self, v, t):
        return z3.BitVecVal(v, self.width(t))

    def bvconv(self, v, ft, tt):
        if z3.is_int(v):
            return v
        a, b = v.size(), self.width(tt)
        if b == a:
            return v
        if b < a:
            return z3.Extract(b - 1, 0, v)
        return z3.SignExt(b - a, v) if self.signed(ft) else z3.ZeroExt(b - a, v)

    def bvarith(self, op, a, b, t):
        if op in ('<<', '>>'):
            if b.size() < a.size():
                b = z3.ZeroExt(a.size() - b.size(), b)
            elif b.size() > a.size():
                b = z3.Extract(a.size() - 1, 0, b)
            if op == '<<':
                return a << b
            return a >> b if self.signed(t) else z3.LShR(a, b)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op == '/': return a / b if self.signed(t) else z3.UDiv(a, b)
        if op == '%': return z3.SRem(a, b) if self.signed(t) else z3.URem(a, b)
        raise Unsupported('bv ' + op)

    def x_assign(self, n):
        v = self.ev(n['b'])
        p = self.lv(n['a'])
        self.write(p, v)
        return p

    def x_cassign(self, n):
        v = self.ev(n['b'])
        p = self.lv(n['a'])
        old = self.read(p)
        if self.w.bv and z3.is_bv(old):
            ct = n.get('ct') or n['t']
            o2 = self.bvconv(old, n['a']['t'], ct)
            r = self.arith(n['op'][:-1], o2, v, ct)
            r = self.bvconv(r, ct, n['a']['t'])
        else:
            r = self.arith(n['op'][:-1], old, v, n['t'])
        self.write(p, r)
        return p

    def x_cond(self, n):
        c = self.tobool(self.ev(n['c']))
        sc = z3.simplify(c)
        if z3.is_true(sc):
            return self.ev0(n['a'])
        if z3.is_false(sc):
            return self.ev0(n['b'])
        try:
            a = self.pure_eval(lambda: self.ev(n['a']), c)
            b = self.pure_eval(lambda: self.ev(n['b']), Not(c))
            if z3.is_expr(a) and z3.is_expr(b):
                return If(c, a, b)
            if isinstance(a, CStr) and isinstance(b, CStr):
                return CStr(If(c, a.null, b.null), If(c, a.s, b.s))
        except (NotPure, PathEnd):
            pass
        if self.branch(c):
            return self.ev0(n['a'])
        return self.ev0(n['b'])

    def x_lambda(self, n):
        env = {}
        for c in n['caps']:
            if c.get('this'):
                env['this'] = self.st.env['this']
            elif c.get('ref'):
                env[c['id']] = self.lv({'k': 'var', 'id': c['id']})
            else:
                env[c['id']] = self.ev(c['init'])
        return Lam(n, env, self.st.env.get('this'))

    def x_initlist(self, n):
        if self.opts.get('arrays') and n['t'].startswith('A<'):
            v = self.default_value(n['t'])
            if not z3.is_expr(v):
                raise Unsupported('array initialiser')
            et, cnt = parse_type(n['t'])[1]
            vals = [self.ev(a) for a in n['args']]
            vals += [z3.IntVal(0)] * (int(cnt) - len(vals))
            data = z3.K(self.w.Int, z3.IntVal(0))
            for i, x in enumerate(vals):
                if not (z3.is_int_value(x) and x.as_long() == 0):
                    data = z3.Store(data, i, x)
            return v.sort().constructor(0)(z3.IntVal(int(cnt)), data)
        if n['t'] in self.w.value_classes or n['t'] in self.prog.recs and not self.isheap(n['t']):
            return self.w.sort(n['t']).constructor(0)(*[self.ev(a) for a in n['args']])
        if len(n['args']) == 1 and n['args'][0]['t'] == n['t']:
            return self.ev(n['args'][0])
        if n['t'] in self.w.extern_recs or n['t'] in self.prog.recs:
            return self.w.sort(n['t']).constructor(0)(*[self.ev(a) for a in n['args']])
        return ListVal([self.ev(a) for a in n['args']])

    def x_stmtexpr(self, n):
        raise Unsupported('statement expression')

    # ---- calls
    def args(self, nodes, pts):
        out = []
        for i, a in enumerate(nodes):
            t = pts[i] if i < len(pts) else None
            if t and t.startswith('R<'):
                out.append(self.lv(a))
            else:
                out.append(self.ev(a))
        return out

    def x_call(self, n):
        if 'fn' not in n:
            f = self.ev(n['callee'])
            return self.lib.indirect(self, f, [self.ev(a) for a in n['args']], n)
        args = self.args(n['args'], n['pt'])
        return self.callfn(n['fn'], None, args, n)

    def x_mcall(self, n):
        ot = n['ot']
        if n.get('arrow') or ot.startswith('P<'):
            o = self.ev(n['obj'])
        else:
            o = self.lv(n['obj'])
        args = self.args(n['args'], n['pt'])
        return self.callfn(n['fn'], o, args, n)

    def x_opcall(self, n):
        r = self.lib.opcall(self, n)
        if r is not NotImplemented:
            return r
        if n['mem']:
            o = self.lv(n['args'][0])
            args = self.args(n['args'][1:], n['pt'])
            if isinstance(o, Place) and o.root[0] == 'env':
                v = self.read(o)
                if isinstance(v, Lam):
                    return self.calllam(v, args)
            return self.callfn(n['fn'], o, args, n)
        args = self.args(n['args'], n['pt'])
        return self.callfn(n['fn'], None, args, n)

    def calllam(self, lam, args):
        return self.runbody(lam.node['params'], lam.node['body'], args, lam.this, lam.env)

    def callfn(self, key, this, args, n):
        name = base_name(key)
        r = self.lib.call(self, name, key, this, args, n)
        if r is not NotImplemented:
            return r
        if n.get('virt') and n.get('cls'):
            cls = n['cls']
            dyn = self.dyn.get(short(cls))
            if dyn:
                key = self.prog.resolve_virtual(key, 'efsw::' + dyn)
                name = base_name(key)
        c = self.find_contract(name, len(args), key)
        if c is not None and self.opts.get('inline') and name in self.opts['inline']:
            c = None
        if c is not None:
            return self.apply(c, key, this, args)
        fn = self.prog.fns.get(key)
        if fn is None:
            raise Unsupported('call to %s (no body, no model)' % name)
        if n.get('virt') and self.prog.over.get(key) and not self.dyn.get(short(n.get('cls', ''))):
            raise Unsupported('virtual call ' + name)
        return self.inline(fn, this, args)

    def find_contract(self, name, ar, key=None):
        if key and self.keyed:
            for (k, n), c in self.contracts.items():
                if n == ar and '<' in k and key.startswith(k) and key[len(k)] in '<(':
                    return c
        return self.contracts.get((name, ar)) or self.contracts.get((name, None))

    def inline(self, fn, this, args):
        self.inlined.add(fn['name'])
        if self.fnstack.count(fn['key']) >= 1:
            raise Unsupported('recursion without contract: ' + fn['name'])
        self.fnstack.append(fn['key'])
        try:
            return self.runbody(fn['params'], fn['body'], args, this, {}, fn)
        finally:
            self.fnstack.pop()

    def runbody(self, params, body, args, this, env, fn=None):
        st = self.st
        saved = dict(st.env)
        for k, v in env.items():
            st.env[k] = v
        t = this
        if isinstance(this, Place):
            t = Ptr(this)
        elif isinstance(this, ObjRef):
            t = this.ref
        if this is not None:
            st.env['this'] = t
        for p, a in zip(params, args):
            if p['t'].startswith('R<') and not isinstance(a, (Place, ObjRef)):
                a = self.newtmp(a)
            st.env[p['id']] = a
        ret = None
        try:
            if fn and fn.get('ctor'):
                self.ctor_inits(fn, this)
            self.exec(body)
        except Ret as r:
            ret = r.v
        finally:
            # restore caller frame, keep caller variables' updates and temporaries
            cur = self.st.env
            ne = {}
            for k, v in saved.items():
                ne[k] = cur.get(k, v)
            for k in list(env) + [p['id'] for p in params] + ['this']:
                if k in saved:
                    ne[k] = saved[k]
                    # by-reference captured variable: keep the updated value
                    if k in env and not isinstance(env[k], Place) and k in cur and not isinstance(saved[k], Place):
                        ne[k] = saved[k]
            for k, v in cur.items():
                if isinstance(k, tuple) and k not in ne:
                    ne[k] = v
            self.st.env = ne
        rt = fn['ret'] if fn else None
        if ret is not None and isinstance(ret, Place) and not (rt and rt.startswith('R<')):
            ret = self.read(ret)
        return ret

    def ctor_inits(self, fn, this):
        for i in fn['inits']:
            if 'base' in i:
                e = i['e']
                if e['k'] == 'ctor':
                    self.ctor_call(e, this)
            elif i.get('delegate'):
                self.ctor_call(i['e'], this)
            else:
                if isinstance(this, ObjRef):
                    p = self.member(this, i['f'], fn['cls'])
                    # field may belong to this class only
                else:
                    p = this.sub(('f', i['f']))
                try:
                    v = self.ev(i['e'])
                except Unsupported:
                    if isinstance(p, Place) and p.root[0] == 'h' and ('Lock' in p.root[1] or 'Mutex' in i['ft'] or 'mutex' in i['ft']):
                        continue
                    raise
                if isinstance(v, (Opaque,)):
                    continue
                self.write(p, v)

    def ctor_call(self, e, this):
        args = self.args(e['args'], e['pt'])
        key = e['fn']
        name = base_name(key)
        c = self.find_contract(name, len(args))
        if c is not None:
            return self.apply(c, key, this, args)
        fn = self.prog.fns.get(key)
        if fn is None:
            return
        self.inline(fn, this, args)

    def x_ctor(self, n):
        r = self.lib.ctor(self, n)
        if r is not NotImplemented:
            return r
        t = n['t']
        if n['copy'] and (n['implicit'] or n['trivial']):
            return self.ev(n['args'][0])
        if n['implicit'] and not n['args']:
            return self.default_value(t)
        args = self.args(n['args'], n['pt'])
        return self.construct(n['fn'], t, args, n)

    def construct(self, key, t, args, n):
        """value-class object via user constructor"""
        name = base_name(key)
        if t not in self.w.value_classes:
            raise Unsupported('construct ' + t)
        init = self.w.sort(t).constructor(0)(*[self.rawfield(f['t']) for f in self.prog.recs[t]['fields']])
        p = self.newtmp(init)
        c = self.find_contract(name, len(args))
        if c is not None:
            self.apply(c, key, p, args)
        else:
            fn = self.prog.fns.get(key)
            if fn is None:
                raise Unsupported('constructor ' + key)
            self.inline(fn, p, args)
        return self.read(p)

    def rawfield(self, t):
        if t in self.w.value_classes:
            return self.fresh('raw', self.w.sort(t))
        v = self.default_value(t)
        return v.s if isinstance(v, CStr) else v

    def x_new(self, n):
        r = self.lib.new(self, n)
        if r is not NotImplemented:
            return r
        t = n['et']
        if not self.isheap(t) or n['array']:
            raise Unsupported('new ' + t)
        al = self.hget('$alive')
        e = n.get('init')
        args = self.args(e['args'], e['pt']) if e and e['k'] == 'ctor' else []
        ref = self.fresh('new_' + short(t), self.w.Int)
        al = self.hget('$alive')
        self.fact(And(ref != 0, Not(z3.Select(al, ref))))
        self.hset('$alive', z3.Store(al, ref, T))
        if e and e['k'] == 'ctor':
            key, name = e['fn'], base_name(e['fn'])
            c = self.find_contract(name, len(args))
            if c is not None:
                self.apply(c, key, ObjRef(ref, t), args)
            else:
                fn = self.prog.fns.get(key)
                if fn is None:
                    raise Unsupported('constructor ' + key)
                self.inline(fn, ObjRef(ref, t), args)
        return ref

    def x_delete(self, n):
        v = self.ev(n['e'])
        r = self.lib.delete(self, v, n)
        if r is not NotImplemented:
            return r
        t = n['et']
        if self.branch(v == 0):
            return None
        if self.mem:
            self.oblige('deleted %s is alive' % short(t), z3.Select(self.hget('$alive'), v), ('mem',))
        dyn = self.dyn.get(short(t), short(t)) if n.get('virt') else short(t)
        self.destroy(v, 'efsw::' + dyn if ('efsw::' + dyn) in self.prog.recs else dyn)
        self.hset('$alive', z3.Store(self.hget('$alive'), v, F))
        return None

    def destroy(self, ref, cls):
        name = cls + '::<dtor>'
        c = self.find_contract(name, 0)
        if c is not None:
            self.apply(c, name + '()', ObjRef(ref, cls), [])
            return
        for fn in self.prog.by_name.get(name, []):
            self.inline(fn, ObjRef(ref, cls), [])
        for b in self.prog.recs.get(cls, {}).get('bases', []):
            self.destroy(ref, b)

    # ------------------------------------------------------------ contracts
    def argvals(self, args):
        return [self.read(a) if isinstance(a, Place) else (a.ref if isinstance(a, ObjRef) else a) for a in args]

    def apply(self, c, key, this, args):
        self.used_contracts.add(c.name)
        fn = self.prog.fns.get(key)
        if isinstance(this, ObjRef):
            thisv = this.ref
        elif isinstance(this, Place):
            thisv = this
        elif isinstance(this, Ptr):
            this = this.place
            thisv = this
        else:
            thisv = this
        oldh = dict(self.st.h)
        oa = self.argvals(args)
        cc = CallCtx(self, fn, thisv, args, oldh, self.st.h, oa, oa)
        if isinstance(this, Place):
            cc.othis = cc.nthis = self.read(this)
        line = self.line
        for l in c.held:
            if not self.opts.get('nolock'):
                self.lockobl('%s is called holding %s' % (short(c.name), l), bool(self.st.held.get(l)))
        for l in c.acquires:
            self.lockorder(l, 'taken by ' + short(c.name))
        if c.requires:
            for lab, g in c.requires(cc):
                self.oblige('precondition of %s: %s' % (short(c.name), lab), g, ())
        if self.opts.get('fnhook'):
            self.opts['fnhook'](self, c, cc)
        for m in self.mods(c):
            if m == 'this':
                v = self.fresh('this', cc.othis.sort())
                self.rangeval(v)
                self.write(this, v)
            elif m.startswith('arg:'):
                i = int(m[4:])
                if isinstance(args[i], Place):
                    ov = oa[i]
                    v = self.fresh('arg%d' % i, ov.sort())
                    self.rangeval(v)
                    self.write(args[i], v)
            else:
                self.hset(m, self.fresh(m, self.hsort(m)))
        na = self.argvals(args)
        cc.newh, cc.na = self.st.h, na
        if isinstance(this, Place):
            cc.nthis = self.read(this)
        res = None
        if c.returns_this:
            res = this
        elif c.result:
            res = c.result(cc)
        elif c.call_result:
            res = c.call_result(cc)
        elif fn is not None and fn['ret'] and fn['ret'] != 'void' and not fn.get('ctor') and not fn.get('dtor'):
            res = self.freshval('ret_' + short(c.name).split('::')[-1], fn['ret'])
        elif c.__dict__.get('rett'):
            res = self.freshval('ret', c.rett)
        cc.res = res
        if c.ensures:
            for e in c.ensures(cc):
                self.fact(e[1])
        self.line = line
        return res

    def mods(self, c):
        m = c.modifies
        return m(self) if callable(m) else m

    def rangeval(self, v):
        nm = v.sort().name() if v.sort().kind() == z3.Z3_DATATYPE_SORT else ''
        if nm.startswith('Vec_'):
            self.fact(self.w.acc(v, 'len') >= 0)

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        if 'l' in s:
            self.line = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if not m:
            raise Unsupported('statement ' + s['k'] + ' ' + str(s.get('what', '')))
        m(s)

    def s_nop(self, s):
        pass

    def s_expr(self, s):
        self.ev0(s['e'])

    def s_block(self, s):
        decls = []
        stmts = s['s']
        i = 0
        try:
            while i < len(stmts):
                c = stmts[i]
                if c and c['k'] == 'decl':
                    decls += [d['id'] for d in c['d']]
                try:
                    self.exec(c)
                except Goto as g:
                    j = [k for k, x in enumerate(stmts) if x and x['k'] == 'label' and x['n'] == g.n]
                    if not j or j[0] <= i:
                        raise
                    i = j[0]
                    continue
                i += 1
        except PathEnd:
            raise
        except (Ret, Brk, Cont, Goto) as r:
            if isinstance(r, Ret) and isinstance(r.v, Place) and r.v.root[0] == 'env' and r.v.root[1] in decls:
                r.v = self.read(r.v)
            self.unwind(decls)
            raise
        self.unwind(decls)

    def unwind(self, decls):
        for d in reversed(decls):
            v = self.st.env.get(d)
            if isinstance(v, LockObj):
                self.release(v)

    def acquire(self, name):
        self.lockorder(name, 'taken')
        self.st.held[name] = self.st.held.get(name, 0) + 1

    def lockorder(self, name, how):
        order = self.opts.get('lockorder')
        if not order or name not in order or self.st.held.get(name):
            return
        bad = [o for o, k in self.st.held.items() if k and o != name and o in order and order.index(o) > order.index(name)]
        self.lockobl('%s %s in the lock order%s' % (name, how, ', not after ' + bad[0] if bad else ''), not bad)
        if self.curc is not None:
            self.lockobl('%s is among the locks the contract says may be taken' % name, name in self.curc.acquires)

    def release(self, lk):
        if lk.n:
            self.st.held[lk.name] -= 1
            lk.n = 0

    def s_decl(self, s):
        for d in s['d']:
            t = d['t']
            if d.get('g'):
                self.lib.static_decl(self, d)
                continue
            if t.startswith('R<'):
                self.st.env[d['id']] = self.lv(d['init'])
                continue
            e = d['init']
            if e is None:
                self.st.env[d['id']] = self.default_value(t)
            else:
                v = self.ev(e)
                self.st.env[d['id']] = v
            self.st.types[d['id']] = (t, d['n'])

    def s_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('cv'):
            self.exec(s['cv'])
        c = self.tobool(self.ev(s['c']))
        if self.branch(c):
            self.exec(s['a'])
        else:
            self.exec(s['b'])

    def s_return(self, s):
        if s['e'] is None:
            raise Ret(None)
        v = self.ev0(s['e'])
        raise Ret(v)

    def s_break(self, s):
        raise Brk()

    def s_continue(self, s):
        raise Cont()

    def s_goto(self, s):
        raise Goto(s['n'])

    def s_label(self, s):
        self.exec(s['s'])

    def s_switch(self, s):
        v = self.ev(s['c'])
        body = s['body']['s']
        flat = []   # (labels, stmt)

        def unwrap(x, labs):
            while x and x['k'] in ('case', 'default'):
                labs.append(x)
                x = x['s']
            return x
        for x in body:
            labs = []
            y = unwrap(x, labs)
            flat.append((labs, y))
        cases = [(l, i) for i, (labs, _) in enumerate(flat) for l in labs]
        start, dflt = None, None
        for l, i in cases:
            if l['k'] == 'default':
                dflt = i
        # group consecutive labels with the same target into one branch
        groups = {}
        order = []
        for l, i in cases:
            if l['k'] == 'case':
                if i not in groups:
                    groups[i] = []
                    order.append(i)
                groups[i].append(self.lib.equal(self, v, self.ev(l['v'])))
        for i in order:
            if self.branch(Or(*groups[i]) if len(groups[i]) > 1 else groups[i][0]):
                start = i
                break
        if start is None:
            start = dflt
        if start is None:
            return
        decls = []
        try:
            for labs, x in flat[start:]:
                if x and x['k'] == 'decl':
                    decls += [d['id'] for d in x['d']]
                self.exec(x)
        except Brk:
            pass
        self.unwind(decls)

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s['init']:
            self.exec(s['init'])
        self.loop(s, s['c'], s['body'], s['inc'])

    def s_while(self, s):
        self.loop(s, s['c'], s['body'], None, cv=s.get('cv'))

    def s_do(self, s):
        if s['c']['k'] == 'int' and s['c']['v'] == '0':
            try:
                self.exec(s['body'])
            except (Brk, Cont):
                pass
            return
        self.loop(s, s['c'], s['body'], None, dowhile=True)

    def s_rangefor(self, s):
        rng = self.lv(s['range'])
        if isinstance(rng, Place) and rng.root[0] == 'env' and isinstance(self.read(rng), ListVal):
            raise Unsupported('range over list')
        it = self.lib.begin(self, rng)
        key = ('rf', id(s))
        self.st.env[key] = it
        var = s['var']

        def cond():
            return Not(self.lib.atend(self, self.st.env[key]))

        def body():
            p = self.lib.iterderef(self, self.st.env[key])
            if var['t'].startswith('R<'):
                self.st.env[var['id']] = p
            else:
                self.st.env[var['id']] = self.read(p) if isinstance(p, Place) else p
                if isinstance(p, Place) and p.path and p.path[-1][0] == 'entry':
                    pass
            self.exec(s['body'])

        def inc():
            self.st.env[key] = self.lib.iternext(self, self.st.env[key])
        self.loop(s, cond, body, inc)

    def run_cond(self, c, cv):
        if cv:
            self.exec(cv)
        if c is None:
            return T
        return self.tobool(c() if callable(c) else self.ev(c))

    def loop(self, node, c, body, inc, dowhile=False, cv=None):
        line = node.get('l')
        key = ('loop', id(node), self.ctxkey, tuple(self.dec[:self.di]), self.evc)
        entry = self.st.copy()
        hooks = self.opts.get('loophook')

        def once():
            """one iteration from the head; raises Brk/Ret/...; returns True at the back edge, False at normal exit"""
            if not dowhile:
                if not self.branch(self.run_cond(c, cv)):
                    return False
            try:
                if callable(body):
                    body()
                else:
                    self.exec(body)
            except Cont:
                pass
            if inc is not None:
                if callable(inc):
                    inc()
                else:
                    self.ev0(inc)
            if dowhile:
                if not self.branch(self.run_cond(c, cv)):
                    return False
            return True
        if key not in self.loopmemo:
            self.loopmemo[key] = self.infer(node, once, entry)
        H, cands, names, n2, cursor = self.loopmemo[key]
        for kind, k in H:
            if kind == 'env' and k in self.ghostinit and k not in self.st.env:
                self.st.env[k] = entry.env[k] = self.ghostinit[k]
        # establish
        self.st.n = n2
        self.evc += 1
        lc0 = LoopCtx(self, entry, entry, self.cursor_of(entry, H), node, self.h0, H)
        for (nm, fnc) in cands:
            g = fnc(lc0)
            if g is not None:
                pass   # proved at entry during inference
        if self.quiet == 0 and not getattr(self, '_ll', None):
            pass
        self.havoc(H, entry)
        head = self.st.copy()
        lc = LoopCtx(self, head, entry, self.cursor_of(head, H), node, self.h0, H)
        for (nm, fnc) in cands:
            g = fnc(lc)
            if g is not None:
                self.fact(g)
        if not self.quiet:
            kk = (key, 'info')
            if kk not in self.seen:
                self.seen.add(kk)
                self.loopinfo.append((self.curfn, line, [x for x, _ in cands]))
        must = self.opts.get('must', ())
        outer = self.st.cursors
        cur = self.cursor_of(self.st, H)
        self.st.cursors = outer + ((cur, id(node)),)
        try:
            r = once()
        except Brk:
            self.st.cursors = outer
            return
        except (Ret, Goto):
            self.st.cursors = outer
            raise
        self.st.cursors = outer
        if r:
            if self.st.held or entry.held:
                self.lockobl('locks balanced over loop iteration', nz(self.st.held) == nz(entry.held))
            raise PathEnd()
        if cur is not None:
            self.st.done = self.st.done + ((cur.place, cur, entry),)
        return

    def havoc(self, H, entry):
        st = self.st
        for kind, k in H:
            if kind == 'h':
                self.hset(k, self.fresh(k, self.hsort(k)))
            else:
                v = entry.env[k]
                nm = self.st.types.get(k, (None, 'v'))[1] if not isinstance(k, tuple) else 'tmp'
                st.env[k] = self.havoc_val(v, nm)
                if k in st.types and z3.is_expr(st.env[k]):
                    self.range(st.env[k], st.types[k][0])

    def havoc_val(self, v, nm):
        if isinstance(v, MapIter):
            m = self.read(v.place)
            dom = self.w.acc(m, 'dom')
            ks = dom.sort().domain()
            key = self.fresh('key', ks)
            end = self.fresh('end', self.w.Bool)
            vis = self.fresh('vis', z3.ArraySort(ks, self.w.Bool))
            self.fact(Implies(Not(end), And(z3.Select(dom, key), Not(z3.Select(vis, key)))))
            k = z3.Const('k?', ks)
            self.fact(Implies(end, FA(k, Implies(z3.Select(dom, k), z3.Select(vis, k)), z3.Select(dom, k))))
            return MapIter(v.place, key, end, vis)
        if isinstance(v, VecIter):
            return VecIter(v.place, self.fresh('idx', self.w.Int), v.rev)
        if isinstance(v, CStr):
            return CStr(self.fresh('null', self.w.Bool), self.fresh('cs', self.w.Str))
        if z3.is_expr(v):
            x = self.fresh(nm, v.sort())
            self.rangeval(x)
            return x
        if isinstance(v, Opaque) and v.what.startswith('uninit'):
            return v
        if isinstance(v, (Lam, LockObj)):
            return v
        r = self.lib.havoc(self, v, nm)
        if r is not None:
            return r
        raise Unsupported('loop-modified value %s' % type(v).__name__)

    def differs(self, a, b):
        if a is b:
            return False
        if z3.is_expr(a) and z3.is_expr(b):
            return not a.eq(b)
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            return not (a.key.eq(b.key) and a.end.eq(b.end) and (a.vis is b.vis or (a.vis is not None and b.vis is not None and a.vis.eq(b.vis))))
        if isinstance(a, VecIter) and isinstance(b, VecIter):
            return not a.idx.eq(b.idx)
        if isinstance(a, CStr) and isinstance(b, CStr):
            return self.differs(a.s, b.s) or self.differs(a.null, b.null)
        if isinstance(a, Place) and isinstance(b, Place):
            return a.key() != b.key()
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.place.key() != b.place.key()
        return True

    def cursor_of(self, st, H):
        """the iteration cursor among the loop-modified variables"""
        best = None
        for kind, k in H:
            if kind == 'env':
                v = st.env.get(k)
                if isinstance(v, MapIter) and v.vis is not None:
                    return v
                if isinstance(v, VecIter):
                    best = v
        return best

    def infer(self, node, once, entry):
        self.quiet += 1
        try:
            return self._infer(node, once, entry)
        finally:
            self.quiet -= 1

    def _infer(self, node, once, entry):
        base = self.st
        H = []
        bs = base.n
        for it in range(8):
            self.st = entry.copy()
            self.st.n = base.n
            self.havoc(H, entry)
            head = self.st.copy()
            self.st.cursors = self.st.cursors + ((self.cursor_of(self.st, H), id(node)),)
            res = self.explore(once)
            base.n = max(base.n, self.st.n)
            new = []
            for (out, v), st in res:
                if out in ('norm',) and v is True:
                    pass
                else:
                    continue
                for n, x in st.h.items():
                    y = head.h.get(n)
                    if y is None:
                        y = self.hinit(n)
                    if self.differs(x, y) and ('h', n) not in H and ('h', n) not in new:
                        new.append(('h', n))
                for k in st.env:
                    if k in self.ghostinit and k not in head.env:
                        entry.env[k] = head.env[k] = base.env[k] = self.ghostinit[k]
                for k, y in head.env.items():
                    x = st.env.get(k)
                    if self.differs(x, y) and ('env', k) not in H and ('env', k) not in new:
                        new.append(('env', k))
            if not new:
                break
            # an uninitialised iterator/opaque that is assigned in every iteration is loop-local
            for c in list(new):
                if c[0] == 'env' and isinstance(entry.env.get(c[1]), Opaque):
                    new.remove(c)
            # places/pointers assigned per iteration are treated as loop-local too
            for c in list(new):
                if c[0] == 'env' and isinstance(entry.env.get(c[1]), (Place, Ptr, ObjRef)):
                    new.remove(c)
            if not new:
                break
            H += new
        self.st = base
        cands = self.candidates(node, once, entry, H, head, res)
        # Houdini
        self.st = entry.copy()
        self.st.n = base.n
        lc0 = LoopCtx(self, entry, entry, self.cursor_of(entry, H), node, self.h0, H)
        good = []
        dbg = self.opts.get('debug')
        for nm, f in cands:
            try:
                g = f(lc0)
            except (KeyError, AttributeError, z3.Z3Exception):
                if dbg:
                    import traceback
                    traceback.print_exc()
                continue
            if g is None:
                continue
            if self.proves(g):
                good.append((nm, f))
            elif dbg:
                print('   cand', nm, 'fails at entry, line', node.get('l'))
        base.n = max(base.n, self.st.n)
        while good:
            self.st = entry.copy()
            self.st.n = base.n
            self.havoc(H, entry)
            head = self.st.copy()
            lc = LoopCtx(self, head, entry, self.cursor_of(head, H), node, self.h0, H)
            for nm, f in good:
                g = f(lc)
                if g is not None:
                    self.fact(g)
            self.st.cursors = self.st.cursors + ((self.cursor_of(self.st, H), id(node)),)
            res = self.explore(once)
            base.n = max(base.n, self.st.n)
            bad = set()
            for (out, v), st in res:
                if not (out == 'norm' and v is True):
                    continue
                self.st = st
                lcb = LoopCtx(self, st, entry, self.cursor_of(st, H), node, self.h0, H)
                for nm, f in good:
                    if nm in bad:
                        continue
                    try:
                        g = f(lcb)
                    except (KeyError, AttributeError, z3.Z3Exception):
                        bad.add(nm)
                        continue
                    if g is None:
                        continue
                    if not self.proves(g, timeout=self.opts.get('inv_ms', 6000)):
                        bad.add(nm)
                        if os.environ.get('VTIME'):
                            sys.stderr.write('   %s not preserved, %s at %.1fs\n' % (nm, node.get('l'), time.time() - T00))
                        if dbg:
                            print('   cand', nm, 'not preserved, line', node.get('l'))
                base.n = max(base.n, self.st.n)
            if not bad:
                break
            good = [x for x in good if x[0] not in bad]
        if os.environ.get('VTIME'):
            sys.stderr.write('loop %s at %.1fs: %s\n' % (node.get('l'), time.time() - T00, [x for x, _ in good]))
        self.st = base
        return (H, good, [x for x, _ in good], base.n + 1, None)

    def candidates(self, node, once, entry, H, head, res):
        """automatic candidates + those of the contract of the function being verified"""
        out = []
        w = self.w
        hn = [k for kind, k in H if kind == 'h']
        en = [k for kind, k in H if kind == 'env']
        # --- cursor bounds
        for k in en:
            v = entry.env[k]
            if isinstance(v, VecIter) and not v.rev:
                def f(lc, k=k, v=v):
                    x = lc.cur.env[k]
                    vec = self.read_in(lc.cur, x.place)
                    return And(x.idx >= v.idx, x.idx <= w.acc(vec, 'len')) if z3.is_expr(vec) and vec.sort() != w.Str else x.idx >= v.idx
                out.append(('cursor bounds', f))
            elif isinstance(v, VecIter):
                out.append(('cursor bounds', lambda lc, k=k, v=v: And(lc.cur.env[k].idx >= 0, lc.cur.env[k].idx <= v.idx)))
            elif z3.is_expr(v) and z3.is_int(v):
                out.append(('lower bound %s' % str(k), lambda lc, k=k, v=v: lc.cur.env[k] >= v))
        # --- vectors / cursors over unmodified containers
        for k in en:
            v = entry.env[k]
            if isinstance(v, MapIter) and v.vis is not None:
                def f(lc, k=k, v=v):
                    x = lc.cur.env[k]
                    m = self.read_in(lc.entry, x.place)
                    kk = z3.Const('k?', x.key.sort())
                    return z3.ForAll([kk], Implies(z3.Select(x.vis, kk), z3.Select(w.acc(m, 'dom'), kk)), patterns=[z3.Select(x.vis, kk)])
                out.append(('visited in domain', f))
        for k in en:
            v = entry.env[k]
            if z3.is_expr(v) and v.sort().kind() == z3.Z3_DATATYPE_SORT and not v.sort().name().startswith(('Map_', 'Vec_', 'Pair')):
                for fl in w.fields.get(v.sort().name(), ()):
                    # only fields that some iteration leaves alone syntactically
                    if all(o != 'norm' or r is not True or z3.simplify(w.acc(st.env[k], fl)).eq(z3.simplify(w.acc(head.env[k], fl))) for (o, r), st in res if z3.is_expr(st.env.get(k))):
                        out.append(('%s unchanged' % fl, lambda lc, k=k, fl=fl: w.acc(lc.cur.env[k], fl) == w.acc(lc.entry.env[k], fl)))
        self.auto_visited(out, node, entry, H, head, res)
        # --- integer variables moving in step
        ints = [k for k in en if z3.is_expr(entry.env[k]) and z3.is_int(entry.env[k]) and not isinstance(k, tuple)]
        for i, k in enumerate(ints):
            for k2 in ints[i + 1:]:
                d = z3.simplify(entry.env[k] - entry.env[k2])
                if z3.is_int_value(d):
                    out.append(('%s and %s move together' % (k, k2), lambda lc, k=k, k2=k2, d=d: lc.cur.env[k] - lc.cur.env[k2] == d))
        c = self.curcontract
        if c is not None:
            for gen in c.loops:
                out.append((getattr(gen, '__name__', 'cand'), gen) if not isinstance(gen, tuple) else gen)
        for gen in self.opts.get('loopgens', ()):
            out += gen(self, node, entry, H, head, res)
        return out

    def read_in(self, st, place):
        cur = self.st
        self.st = st
        q = self.opts.get('nolock')
        self.opts['nolock'] = True
        try:
            return self.read(place)
        finally:
            self.st = cur
            self.opts['nolock'] = q

    def auto_visited(self, out, node, entry, H, head, res):
        """For a loop that walks a container: the condition under which an
        iteration falls through holds of everything visited; flags set and
        elements collected on the way are characterised by the same conditions."""
        w = self.w
        cur = self.cursor_of(head, H)
        ck = None
        for kind, k in H:
            if kind == 'env' and head.env.get(k) is cur:
                ck = k
        intcur = None
        if cur is None:
            # integer index loop
            for kind, k in H:
                if kind == 'env' and z3.is_expr(head.env[k]) and z3.is_int(head.env[k]) and not isinstance(k, tuple):
                    steps = set()
                    for (o, v), st in res:
                        if o == 'norm' and v is True:
                            if not z3.is_expr(st.env[k]):
                                steps.add(None)
                                continue
                            d = z3.simplify(st.env[k] - head.env[k])
                            steps.add(d.as_long() if z3.is_int_value(d) else None)
                    if steps == {1}:
                        intcur = k
                        ck = k
                        break
            if intcur is None:
                return
            kvar = head.env[ck]
        elif isinstance(cur, MapIter):
            kvar = cur.key
        else:
            if cur.rev:
                return
            kvar = cur.idx
        # symbols that may not appear
        banned = set()
        for kind, k in H:
            v = head.h[k] if kind == 'h' else head.env[k]
            if v is cur or k == ck:
                continue
            if z3.is_expr(v):
                banned.add(v.get_id())
            elif isinstance(v, CStr):
                banned.add(v.s.get_id())
        hn = head.n

        def clean(e):
            seen, todo = set(), [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.get_id() in banned:
                    return False
                if z3.is_quantifier(x):
                    todo.append(x.body())
                    continue
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if '!' in nm:
                        try:
                            if int(nm.rsplit('!', 1)[1]) > hn:
                                return False
                        except ValueError:
                            pass
                todo.extend(x.children())
            return True
        if isinstance(cur, MapIter):
            visf = lambda lc, k: z3.Select(lc.cur.env[ck].vis, k)
            endid = cur.end.get_id()
        elif cur is not None:
            visf = lambda lc, k: And(k >= lc.entry.env[ck].idx, k < lc.cur.env[ck].idx)
            endid = None
        else:
            visf = lambda lc, k: And(k >= lc.entry.env[ck], k < lc.cur.env[ck])
            endid = None
        paths = []
        for (o, v), st in res:
            if not (o == 'norm' and v is True):
                continue
            d = [x for kind, x in self.delta(st, head.pc) if kind == 'b']
            keep, dirty = [], False
            for x in d:
                if isinstance(cur, MapIter) and endid in [y.get_id() for y in self.subterms(x)]:
                    # not-at-end test
                    rest = z3.simplify(z3.substitute(x, (cur.end, F)))
                    if z3.is_true(rest):
                        continue
                    x = rest
                if clean(x):
                    keep.append(x)
                else:
                    dirty = True
            paths.append((conj(keep), dirty, st))
        if not paths:
            return
        q = z3.Const('q?', kvar.sort())
        C = Or(*[c for c, _, _ in paths]) if len(paths) > 1 else paths[0][0]
        C = z3.simplify(C)

        def pat(body):
            return self.mkforall(q, body)
        if not z3.is_true(C):
            body = z3.substitute(C, (kvar, q))
            out.append(('visited elements fall through', lambda lc: pat(Implies(visf(lc, q), body))))
        # flags
        for kind, k in H:
            if kind == 'env' and z3.is_expr(head.env[k]) and z3.is_bool(head.env[k]) and entry.env[k] is not None:
                P, ok = [], True
                for c, dirty, st in paths:
                    v = st.env[k]
                    if z3.is_true(v) or z3.is_false(v):
                        P.append((c, z3.is_true(v)))
                        ok = ok and not dirty
                    elif v.eq(head.env[k]):
                        ok = ok and not dirty
                    else:
                        ok = False
                if ok and P:
                    tr = [c for c, b in P if b]
                    if tr and len(tr) == len(P):
                        pb = z3.substitute(Or(*tr) if len(tr) > 1 else tr[0], (kvar, q))
                        out.append(('flag set if visited', lambda lc, k=k, pb=pb: pat(Implies(And(visf(lc, q), pb), lc.cur.env[k]))))
                        out.append(('flag set only if visited', lambda lc, k=k, pb=pb: Or(lc.entry.env[k], Not(lc.cur.env[k]), z3.Exists([q], And(visf(lc, q), pb)))))
        # pushes
        for kind, k in H:
            if kind == 'env' and isinstance(k, tuple) and k[0] == 'src':
                self.auto_push(out, k, entry, head, paths, kvar, q, visf, clean, pat)

    def auto_push(self, out, k, entry, head, paths, kvar, q, visf, clean, pat):
        w = self.w
        vk = k[1]

        def vec(st):
            return self.read_in(st, vk_place(vk, st))

        def vk_place(vk, st):
            return self.srcplaces[vk]
        cases = []
        for c, dirty, st in paths:
            hv, nv = vec(head), vec(st)
            d = z3.simplify(w.acc(nv, 'len') - w.acc(hv, 'len'))
            if not z3.is_int_value(d):
                return
            dl = d.as_long()
            if dl == 0:
                continue
            if dl != 1 or dirty:
                return
            x = z3.simplify(z3.Select(w.acc(nv, 'data'), w.acc(hv, 'len')))
            if not clean(x):
                return
            cases.append((c, x))
        if not cases:
            return
        P = Or(*[c for c, _ in cases]) if len(cases) > 1 else cases[0][0]
        X = cases[-1][1]
        for c, x in reversed(cases[:-1]):
            X = If(c, x, X)
        j = z3.Int('j?')
        kp = ('pos',) + k[1:]

        def f1(lc):
            v, v0 = vec(lc.cur), vec(lc.entry)
            src, pos = lc.cur.env[k], lc.cur.env[kp]
            s = z3.Select(src, j)
            return z3.ForAll([j], Implies(And(j >= w.acc(v0, 'len'), j < w.acc(v, 'len')),
                                          And(z3.substitute(visf(lc, q), (q, s)), z3.substitute(P, (kvar, s)),
                                              z3.Select(w.acc(v, 'data'), j) == z3.substitute(X, (kvar, s)),
                                              z3.Select(pos, s) == j)), patterns=[z3.Select(w.acc(v, 'data'), j), z3.Select(src, j)])

        def f2(lc):
            v, v0 = vec(lc.cur), vec(lc.entry)
            src, pos = lc.cur.env[k], lc.cur.env[kp]
            p = z3.Select(pos, q)
            return pat(Implies(And(visf(lc, q), z3.substitute(P, (kvar, q))),
                               And(p >= w.acc(v0, 'len'), p < w.acc(v, 'len'), z3.Select(src, p) == q)))

        def f3(lc):
            v, v0 = vec(lc.cur), vec(lc.entry)
            return And(w.acc(v, 'len') >= w.acc(v0, 'len'),
                       z3.ForAll([j], Implies(And(0 <= j, j < w.acc(v0, 'len')), z3.Select(w.acc(v, 'data'), j) == z3.Select(w.acc(v0, 'data'), j)),
                                 patterns=[z3.Select(w.acc(v, 'data'), j)]))
        out.append(('collected elements come from visited ones', f1))
        out.append(('visited elements are collected', f2))
        out.append(('collected prefix kept', f3))

    def mkforall(self, q, body):
        return z3.ForAll([q], body)

    def subterms(self, e):
        seen, todo, out = set(), [e], []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            out.append(x)
            todo.extend(x.children())
        return out

    # ------------------------------------------------------------ verify
    def verify(self, fn, contract, this_place=None):
        """check fn's body against contract; obligations are appended to self.obls"""
        self.curfn = fn['name']
        self.curcontract = contract
        self.srcplaces = {}
        self.ghostinit = {}
        st = State()
        self.st = st
        self.h0 = {}
        self.fnstack = [fn['key']]
        cls = fn.get('cls')
        args = []
        this = None
        if cls and not fn.get('static'):
            if cls in self.w.value_classes:
                st.env['thisobj'] = self.fresh('this', self.w.sort(cls))
                this = Place(('env', 'thisobj'))
            else:
                ref = self.fresh('this', self.w.Int)
                this = ObjRef(ref, cls)
                self.fact(ref != 0)
        oa = []
        for p in fn['params']:
            t = p['t']
            if t.startswith('R<'):
                it = t[2:-1]
                if self.isheap(it):
                    args.append(ObjRef(self.fresh(p['n'], self.w.Int), it))
                    oa.append(args[-1].ref)
                    continue
                v = self.freshval(p['n'] or 'arg', it)
                k = ('par', p['id'])
                st.env[k] = v
                args.append(Place(('env', k)))
                oa.append(v)
            else:
                v = self.lib.param(self, p) if self.lib.param else None
                if v is None:
                    v = self.freshval(p['n'] or 'arg', t)
                args.append(v)
                oa.append(v)
        cc = CallCtx(self, fn, this.ref if isinstance(this, ObjRef) else this, args, {}, {}, oa, oa)
        if isinstance(this, Place):
            cc.othis = cc.nthis = self.read(this)
        self.curc = contract if self.opts.get('lockorder') else None
        for l in contract.held:
            st.held[l] = 1
        cc.check = True
        self.entryargs = [v for v in oa]
        if contract.axioms:
            for f in contract.axioms(cc):
                self.fact(f)
        if contract.requires:
            for lab, g in contract.requires(cc):
                self.fact(g)
        # vacuity guard
        self.vac = self.check(self.pcf(), timeout=3000)
        held0 = dict(st.held)
        base = st

        def body():
            v = self.runbody(fn['params'], fn['body'], args, this, {}, fn)
            cc2 = CallCtx(self, fn, cc.this, args, {}, self.st.h, oa, self.argvals(args), v)
            if isinstance(this, Place):
                cc2.othis, cc2.nthis = cc.othis, self.read(this)
            self.line = fn['end']
            if self.st.held or held0:
                self.lockobl('the locks held on return are those held on entry', nz(self.st.held) == nz(held0))
            if contract.returns_this:
                self.oblige('returns the object itself', z3.BoolVal(isinstance(v, Place) and v.key() == this.key()))
            if contract.result:
                r = contract.result(cc2)
                rr = v
                if isinstance(rr, Place):
                    rr = self.read(rr)
                self.oblige('result', self.lib.equal(self, rr, r), getattr(contract, 'rtags', ()))
            if contract.ensures:
                cc2.check = True
                for e in contract.ensures(cc2):
                    self.oblige('postcondition: ' + e[0], e[1], e[2] if len(e) > 2 else (), assume=False)
            self.frame(contract, cc2, args, oa, this)
            return None
        res = self.explore(body)
        self.paths = len(res)
        return self.obls

    def frame(self, c, cc, args, oa, this):
        mods = set(self.mods(c))
        for n, v in self.st.h.items():
            if n in mods or '$*' in mods:
                continue
            i = self.hinit(n)
            if v.eq(i):
                continue
            if n == '$alive':
                continue
            s = v.sort()
            if z3.is_array_sort(s) if False else (s.kind() == z3.Z3_ARRAY_SORT and not n.startswith('$') and s.domain() == self.w.Int):
                r = z3.Int('r?')
                g = z3.ForAll([r], Implies(z3.Select(self.hinit('$alive'), r), z3.Select(v, r) == z3.Select(i, r)), patterns=[z3.Select(v, r)])
            else:
                g = v == i
            self.oblige('frame: %s unchanged' % n, g, ('frame',), assume=False)
        for k, a in enumerate(args):
            if isinstance(a, Place) and ('arg:%d' % k) not in mods:
                nv = self.read(a)
                if z3.is_expr(nv) and not nv.eq(oa[k]):
                    self.oblige('frame: argument %d unchanged' % k, nv == oa[k], ('frame',), assume=False)
        if isinstance(this, Place) and 'this' not in mods:
            nv = self.read(this)
            if not nv.eq(cc.othis):
                self.oblige('frame: object unchanged', nv == cc.othis, ('frame',), assume=False)

    # ------------------------------------------------------------ discharge
    def discharge(self, o, timeout=10000):
        t = time.time()
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.status, o.by = 'proved', 'simplifier'
            return o
        zv = 'z3 %s' % z3.get_version_string()
        o.status, o.by = 'proved', zv
        usecvc = self.opts.get('cvc5', True)
        for hs, part in split(o.goal):
            fs = o.pc + hs + [Not(part)]
            st, by = 'unknown', zv
            for who, tmo in (('z', 2000), ('c', 4), ('m', timeout // 2), ('z', timeout), ('c', timeout // 1000)):
                if who == 'c':
                    if usecvc and self.cvc5(fs, tmo):
                        st, by = 'proved', 'cvc5 1.1.2'
                        break
                    continue
                r = self.check(fs, timeout=tmo, mbqi=(who == 'm'))
                if r == z3.unsat:
                    st = 'proved'
                    break
                if r == z3.sat and who == 'm':
                    st = 'refuted'
                    break
            if by != zv:
                o.by = by
            if st != 'proved':
                o.status = st
                if DUMP:
                    self.dump(o.pc + hs, part)
                break
        o.t = time.time() - t
        return o

    def cvc5(self, fs, timeout=10):
        import subprocess, tempfile, os
        s = z3.Solver()
        for a in self.axioms:
            s.add(a)
        for f in fs:
            s.add(f)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5)
            return r.stdout.strip().startswith(b'unsat')
        except Exception:
            return False
        finally:
            os.unlink(p)

    def witness(self, o):
        """model text for a refuted obligation"""
        s = z3.Solver()
        s.set('timeout', 5000)
        for a in self.axioms:
            s.add(a)
        for f in o.pc:
            s.add(f)
        s.add(Not(o.goal))
        if s.check() == z3.sat:
            return str(s.model())[:4000]
        return None
