"""Runs the verification tasks of one property in parallel processes."""
import os, sys, time, json, signal, traceback, multiprocessing as mp, resource
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('vc', 'specs'):
    if os.path.join(VERIF, d) not in sys.path:
        sys.path.insert(0, os.path.join(VERIF, d))
import z3
from core import World, Unsupported, short
from engine import Engine, Contract, NotPure, PathEnd
from lib import Lib
from program import Program, ExtractError, base_name


class Group:
    """a verification configuration: string mode, contracts, models, options"""

    def __init__(self, name, contracts, smode='U', bv=False, models=None, opts=None, ghosts=None, axioms=None, extra=()):
        self.name, self.contracts, self.smode, self.bv = name, contracts, smode, bv
        self.models, self.opts, self.ghosts, self.axioms, self.extra = models, opts or {}, ghosts, axioms, extra


class Task:
    """verify every body of function `fn` (qualified base name, optional filter on key) against its contract"""

    def __init__(self, group, fn, contract=None, key=None, opts=None, tags=None, timeout=600, optional=False, dyn=None):
        self.group, self.fn, self.contract, self.key = group, fn, contract, key
        self.opts, self.tags, self.timeout, self.optional = opts or {}, tags, timeout, optional

    def label(self):
        return '%s%s' % (short(self.fn), '' if not self.key else '[%s]' % self.key)


class Lemma:
    """closed facts over the spec functions that the contracts use as axioms in the other string mode"""
    key = contract = None
    opts = {}
    tags = None

    def __init__(self, group, name, f, timeout=120):
        self.group, self.fn, self.f, self.timeout = group, 'lemma ' + name, f, timeout

    def label(self):
        return self.fn


def run_lemma(prog, t):
    from engine import Obligation
    t0 = time.time()
    e = make_engine(prog, t.group)
    e.st = None
    out = {'fn': t.label(), 'status': 'ok', 'obls': [], 'loops': [], 'inlined': [], 'contracts': [], 'models': [], 'err': '', 'bodies': 0, 'paths': 0}
    e.axioms = []
    for lab, hyps, goal in t.f(e.w):
        o = Obligation(lab, goal, list(hyps), (), 0, t.fn)
        e.discharge(o, 20000)
        out['obls'].append({'label': o.label, 'line': 0, 'status': o.status, 'by': o.by, 't': round(o.t, 3), 'file': 'specs', 'goal': str(goal)[:800]})
    out['queries'], out['solver_s'] = e.stats['queries'], round(e.stats['solver_s'], 3)
    out['t'] = round(time.time() - t0, 2)
    return out


def make_engine(prog, group, opts=None):
    w = World(prog, group.smode, group.bv)
    w.mk_like = lambda v, *a: v.sort().constructor(0)(*a)
    models = group.models(w) if group.models else {}
    lib = Lib(w, models)
    w.lib = lib
    o = dict(group.opts)
    o.update(opts or {})
    cs = group.contracts(w) if callable(group.contracts) else group.contracts
    gh = group.ghosts(w) if callable(group.ghosts) else group.ghosts
    e = Engine(prog, w, cs, lib, gh, o)
    w.eng = e

    def ax():
        return lib.s.axioms() + (group.axioms(w) if group.axioms else [])
    e.axioms = LazyAxioms(ax, w)
    return e


class LazyAxioms:
    """string-literal facts depend on the literals seen so far"""

    def __init__(self, f, w):
        self.f, self.w, self.n, self.c = f, w, -1, []

    def __iter__(self):
        if self.n != len(self.w.strconsts):
            self.c = self.f()
            self.n = len(self.w.strconsts)
        return iter(self.c)


def run_task(prog, t):
    if hasattr(t, 'f'):
        return run_lemma(prog, t)
    t0 = time.time()
    out = {'fn': t.label(), 'status': 'ok', 'obls': [], 'loops': [], 'inlined': [], 'contracts': [], 'models': [], 'err': '', 'bodies': 0}
    try:
        fns = [f for f in prog.by_name.get(t.fn, []) if t.key is None or t.key in f['key']]
        if not fns:
            raise Unsupported('function %s is not in the sources any more' % t.fn)
        for f in fns:
            e = make_engine(prog, t.group, t.opts)
            c = t.contract or e.find_contract(t.fn, len(f['params']), f['key'])
            if callable(c) and not isinstance(c, Contract):
                c = c(e.w)
            if c is None:
                c = Contract(t.fn)
            e.opts.setdefault('inline', set())
            e.verify(f, c)
            out['bodies'] += 1
            if e.vac == z3.unsat:
                out['status'] = 'vacuous'
                out['err'] = 'preconditions are contradictory'
            if not e.paths and not e.obls and not getattr(c, 'noreturn', False):
                out['status'] = 'vacuous'
                out['err'] = 'no feasible path through the body'
            bad = 0
            for o in e.obls:
                if t.tags and o.tags and not set(o.tags) & t.tags:
                    continue
                if bad >= 3:
                    o.status, o.by = 'skipped', ''
                else:
                    e.discharge(o, e.opts.get('ob_ms', 20000))
                d = {'label': o.label, 'line': o.line, 'status': o.status, 'by': o.by, 't': round(o.t, 3), 'file': os.path.basename(f['file'])}
                if o.status not in ('proved', 'skipped'):
                    bad += 1
                    try:
                        d['model'] = e.witness(o) if o.status == 'refuted' else None
                    except Exception:
                        d['model'] = None
                    d['goal'] = str(o.goal)[:1500]
                out['obls'].append(d)
            out['loops'] += [(l, inv) for _, l, inv in e.loopinfo]
            out['inlined'] += sorted(e.inlined)
            out['contracts'] += sorted(e.used_contracts)
            out['models'] += sorted(e.lib.used)
            out.setdefault('queries', 0)
            out['queries'] += e.stats['queries']
            out['solver_s'] = round(out.get('solver_s', 0) + e.stats['solver_s'], 3)
            out['paths'] = out.get('paths', 0) + e.paths
    except (Unsupported,) as x:
        out['status'], out['err'] = 'unsupported', '%s (line %s)' % (x, getattr(locals().get('e'), 'line', '?'))
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    except (NotPure, PathEnd, KeyError, AttributeError, TypeError, ValueError, IndexError, z3.Z3Exception, RecursionError, AssertionError) as x:
        out['status'], out['err'] = 'unsupported', '%s: %s (line %s)' % (type(x).__name__, str(x)[:300], getattr(locals().get('e'), 'line', '?'))
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    out['t'] = round(time.time() - t0, 2)
    return out


def _child(prog, t, conn):
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        r = run_task(prog, t)
    except MemoryError:
        r = {'fn': t.label(), 'status': 'unsupported', 'err': 'out of memory', 'obls': []}
    except Exception as x:
        r = {'fn': t.label(), 'status': 'unsupported', 'err': 'internal: %s' % traceback.format_exc()[-600:], 'obls': []}
    conn.send(r)
    conn.close()


def run_tasks(prog, tasks, jobs=8, deadline=None):
    ctx = mp.get_context('fork')
    todo = list(enumerate(tasks))
    running, results = {}, {}
    t00 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            i, t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(prog, t, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), t)
        done = []
        for i, (p, a, s, t) in running.items():
            if a.poll(0):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {'fn': t.label(), 'status': 'unsupported', 'err': 'worker died', 'obls': []}
                p.join()
                done.append(i)
            elif time.time() - s > t.timeout or (deadline and time.time() - t00 > deadline):
                p.kill()
                p.join()
                results[i] = {'fn': t.label(), 'status': 'unsupported', 'err': 'verification time limit', 'obls': [], 't': time.time() - s}
                done.append(i)
            elif not p.is_alive() and not a.poll(0.2):
                results[i] = {'fn': t.label(), 'status': 'unsupported', 'err': 'worker died', 'obls': []}
                done.append(i)
        for i in done:
            del running[i]
        if not done:
            time.sleep(0.02)
    return [results[i] for i in range(len(tasks))]


if __name__ == '__main__':
    import importlib
    # developer entry: runner.py <specmodule> [fn-substring]
    m = importlib.import_module(sys.argv[1])
    prog = Program(extra=getattr(m, 'EXTRA', ()))
    sel = [t for t in m.TASKS if len(sys.argv) < 3 or sys.argv[2] in t.label()]
    res = run_tasks(prog, sel) if not os.environ.get('VDEBUG') else [run_task(prog, t) for t in sel]
    for r in res:
        n = len(r['obls'])
        ok = sum(o['status'] == 'proved' for o in r['obls'])
        print('%-55s %-11s %d/%d paths=%s %ss q=%s %s' % (r['fn'], r['status'], ok, n, r.get('paths'), r.get('t'), r.get('queries'), r['err']))
        for o in r['obls']:
            if o['status'] != 'proved' or os.environ.get('VALL'):
                print('     %s:%s %s: %s [%s %s]' % (o.get('file'), o['line'], o['status'], o['label'], o['by'], o['t']))
                if os.environ.get('VMODEL') and o.get('model'):
                    print(o['model'])
                if os.environ.get('VGOAL'):
                    print(o.get('goal'))
        if os.environ.get('VLOOP'):
            for l in r.get('loops', []):
                print('     loop', l)
