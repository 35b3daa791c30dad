"""C14: the lists of watches are only touched under their lock, in one lock order.

The contracts say which locks a function needs from its caller (`held`), and give
up all knowledge about values: what is discharged is, at every read or write of a
guarded list on every path, that its lock is held; at every acquisition, that no
lock later in the global order is held; and at every exit, that the locks held are
those held on entry."""
import os, z3
import fsmodel
import inomodel as im
from core import Place, Ptr
from engine import Contract, And, Or, Not, If, Implies, T, F
from runner import Group, Task

FI, FG, DG = 'efsw::FileWatcherInotify::', 'efsw::FileWatcherGeneric::', 'efsw::DirWatcherGeneric::'
I, Gn = 'FileWatcherInotify.', 'FileWatcherGeneric.'
WL, RL, IL = I + 'mWatchesLock', I + 'mRealWatchesLock', I + 'mInitLock'
GL, CL, LL = Gn + 'mWatchesLock', 'glob.g_callbacksMutex', None
GUARDS = {I + 'mWatches': WL, I + 'mWatchesRef': WL, I + 'mDeletedWatches': WL, I + 'mRealWatches': RL,
          Gn + 'mWatches': GL, 'glob.g_callbacks': CL}
DIR = tuple('DirWatcherGeneric.' + f for f in ('Parent', 'Watch', 'DirSnap', 'Directories', 'Recursive', 'Deleted'))
ORDER = [CL, IL, WL, RL, GL]
HEAP = tuple(GUARDS) + im.FIELDS + DIR + ('$alive',)


def contracts(w):
    cs = fsmodel.contracts(w)

    def C(name, ar, held=(), mod=(), acq=(), **kw):
        cs.append(Contract(name, ar, held=held, modifies=mod, acquires=acq, **kw))
    log = ('glob.efsw::Errors::LastErrorCode', 'glob.efsw::Errors::LastError')
    C('efsw::Errors::Log::createLastError', 2, mod=log, result=lambda c: c.a(0))
    C('efsw::String::strStartsWith', 2)
    C('efsw::FileWatcherImpl::linkAllowed', 2)
    C('efsw::FileWatcherImpl::getOptionValue', 3)
    C('efsw::WatcherInotify::inParentTree', 1)
    C('efsw::WatcherGeneric::pathInWatches', 1)
    # the functions of the inotify backend; an inner function runs under the locks of its callers
    ALL, LISTS = (IL, WL, RL), (WL, RL)
    C(FI + 'addWatch', 4, mod=HEAP, acq=ALL)
    C(FI + 'addWatch', 6, held=(IL,), mod=HEAP, acq=LISTS)
    C(FI + 'removeWatchLocked', 2, held=(IL, WL), mod=HEAP, acq=LISTS)
    C(FI + 'removeWatch', 1, mod=HEAP, acq=ALL)
    C(FI + 'watcherContainsDirectory', 1, acq=LISTS)
    C(FI + 'isWatching', 1, acq=LISTS)
    C(FI + 'movedOutside', 1, mod=HEAP, acq=ALL)
    C(FI + 'removeReplacedWatch', 1, held=(IL,), mod=HEAP, acq=LISTS)
    C(FI + 'checkForNewWatcher', 2, held=(IL,), mod=HEAP, acq=LISTS)
    C(FI + 'handleAction', 4, mod=HEAP, acq=ALL)
    C(FI + 'directories', 0, acq=ALL)
    C(FI + 'pathInWatches', 1, acq=LISTS)
    C(FI + 'run', 0, mod=HEAP, acq=ALL)
    C(FI + '<dtor>', 0, mod=HEAP, acq=ALL)
    C(FG + 'addWatch', 4, mod=HEAP, acq=(GL,))
    C(FG + 'removeWatch', 1, mod=HEAP, acq=(GL,))
    C(FG + 'directories', 0, acq=(GL,))
    C(FG + 'pathInWatches', 1, acq=(GL,))
    C(FG + 'run', 0, mod=HEAP, acq=(GL,))
    C(FG + '<dtor>', 0, mod=HEAP, acq=(GL,))
    # the tree of one polled watch: nothing of it is shared between watches
    C('efsw::WatcherGeneric::<ctor>', 5, mod=HEAP, acq=(GL,))
    C('efsw::WatcherGeneric::watch', 0, mod=HEAP, acq=(GL,))
    C('efsw::WatcherGeneric::<dtor>', 0, mod=HEAP, acq=(GL,))
    for f, n in (('<ctor>', 5), ('<dtor>', 0), ('changePath', 2), ('resetDirectory', 1), ('handleAction', 3), ('addChildren', 1), ('watch', 1), ('watchDir', 1),
                 ('findDirWatcherFast', 1), ('findDirWatcher', 1), ('createDirectory', 1), ('removeDirectory', 1), ('moveDirectory', 2), ('pathInWatches', 1)):
        C(DG + f, n, mod=HEAP, acq=() if f == 'pathInWatches' else (GL,))
    C('efsw::FileWatcher::<dtor>', 0, acq=ALL + (GL,))
    C('efsw::FileWatcher::removeWatch', 1, acq=ALL + (GL,))
    C('efsw::FileWatcher::directories', 0, acq=ALL + (GL,))
    C('efsw::FileWatcher::addWatch', 4, acq=ALL + (GL,))
    C('find_callback', 4, acq=(CL,))
    C('take_callbacks', 1, mod=('glob.g_callbacks',), acq=(CL,))
    C('efsw_addwatch_withoptions', 8, mod=HEAP, acq=ORDER)
    C('efsw_release', 1, mod=HEAP, acq=ORDER)
    return cs


def mods(w):
    m = fsmodel.models(w, fsmodel.get(w))

    def skip(ret=None):
        def f(e, this, args, n):
            return e.fresh('r', w.Int) if ret is None else ret
        return f

    def cell(e, n):
        e.ev(n['b'])
        return e.fresh(n['f'], w.Str if n['t'].startswith('A<') else w.sort(n['t']))
    m['std::stable_sort'] = lambda e, this, args, n: e.write(args[0].place, e.fresh('sorted', e.read(args[0].place).sort())) and None
    m['__errno_location'] = lambda e, this, args, n: Ptr(Place(('h', im.ERRNO)))
    m['$index'] = lambda e, a, i, n: e.fresh('cell', w.Int)
    for c in ('inotify_event', 'efsw_watcher_option'):
        m['$member ' + c] = cell

    def join(e, *a):
        for l in ORDER:
            e.lockobl('the thread is waited for without holding %s' % l, not e.st.held.get(l), 'join')
        e.oblige('the thread was told to stop before it is waited for', Not(e.hget(im.OK)), ('join',), assume=False)
        e.st.held['$joined'] = 1

    def delw(e, v, n):
        if e.opts.get('exclusive'):
            e.oblige('a watch is destroyed only after the thread is gone', Or(v == 0, e.opts['exclusive'](e)), ('join',), assume=False)
        return NotImplemented
    m['$delete efsw::Thread'] = m['efsw::Thread::wait'] = join
    m['$delete efsw::WatcherInotify'] = m['$delete efsw::WatcherGeneric'] = m['$delete efsw::Watcher'] = delw
    m['$new char'] = lambda e, n: e.fresh('buf', w.Int)
    m['$delete char'] = lambda e, v, n: None
    for n in ('inotify_add_watch', 'inotify_rm_watch', 'select', 'read', 'close', 'usleep', 'efsw::System::sleep', 'efsw::Thread::launch', 'memset', 'efsw::FileWatchListener::handleFileAction', 'efsw::FileWatchListener::handleMissedFileActions'):
        m[n] = skip()
    return m


def gone(cls):
    """no thread is left besides the destroying one: joined, or never started"""
    def f(e):
        return T if e.st.held.get('$joined') else e.hinit(cls + 'mThread') == 0
    return f


SINGLE = {'FileWatcherInotify', 'FileWatcherImpl', 'FileWatcher', 'FileWatcherGeneric'}
OPTS = {'guards': GUARDS, 'lockorder': ORDER, 'debug': bool(os.environ.get('VDEBUG')), 'singletons': SINGLE, 'dyn': {'FileWatcherImpl': 'FileWatcherInotify'}, 'tags': {'lock', 'join'}}
G = Group('locks', contracts, models=mods, ghosts=im.ghosts, axioms=lambda w: [], opts=OPTS)
GG = Group('locksG', contracts, models=mods, ghosts=im.ghosts, axioms=lambda w: [], opts=dict(OPTS, dyn={'FileWatcherImpl': 'FileWatcherGeneric'}))
TASKS = [Task(G, FI + 'addWatch', key='std::vector'), Task(G, FI + 'addWatch', key='WatcherInotify'), Task(G, FI + 'removeWatchLocked'), Task(G, FI + 'removeWatch', key='long'),
         Task(G, FI + 'removeWatch', key='string'), Task(G, FI + 'watcherContainsDirectory'), Task(G, FI + 'isWatching'), Task(G, FI + 'movedOutside'),
         Task(G, FI + 'removeReplacedWatch'), Task(G, FI + 'checkForNewWatcher'), Task(G, FI + 'handleAction'), Task(G, FI + 'directories'),
         Task(G, FI + 'pathInWatches'), Task(G, FI + 'run'), Task(G, FI + '<dtor>', opts={'exclusive': gone(I)})] + \
        [Task(GG, FG + 'addWatch'), Task(GG, FG + 'removeWatch', key='long'), Task(GG, FG + 'removeWatch', key='string'), Task(GG, FG + 'run'), Task(GG, FG + 'directories'),
         Task(GG, FG + 'pathInWatches')] + \
        [Task(GG, FG + '<dtor>', opts={'exclusive': gone(Gn)}), Task(GG, 'efsw::WatcherGeneric::<ctor>'), Task(GG, 'efsw::WatcherGeneric::<dtor>'),
         Task(GG, 'efsw::WatcherGeneric::watch'), Task(GG, 'efsw::WatcherGeneric::pathInWatches')] + \
        [Task(GG, DG + f) for f in ('<ctor>', '<dtor>', 'changePath', 'resetDirectory', 'handleAction', 'addChildren', 'watch', 'watchDir', 'findDirWatcherFast',
                                    'findDirWatcher', 'createDirectory', 'removeDirectory', 'moveDirectory', 'pathInWatches')] + \
        [Task(g, 'efsw::FileWatcher::' + f, key=k) for g in (G, GG) for f, k in (('addWatch', 'std::vector'), ('removeWatch', 'long'), ('removeWatch', 'string'), ('directories', None), ('<dtor>', None))] + \
        [Task(GG, 'find_callback'), Task(GG, 'take_callbacks'), Task(GG, 'efsw_addwatch_withoptions'), Task(GG, 'efsw_release')]

for _t in TASKS:
    _t.tags = {'lock'}
TASKS_C17 = [Task(G, FI + '<dtor>', opts={'exclusive': gone(I)}, tags={'join'}), Task(GG, FG + '<dtor>', opts={'exclusive': gone(Gn)}, tags={'join'})]
SHARED = set(GUARDS) | set(ORDER)


def names_shared(fn):
    """the guarded lists and locks a body names"""
    out = set()

    def walk(o):
        if isinstance(o, list):
            for x in o:
                walk(x)
        elif isinstance(o, dict):
            if o.get('k') == 'mem' and o.get('f') and o.get('cls'):
                out.add(o['cls'].split('::')[-1] + '.' + o['f'])
            if o.get('k') in ('gvar', 'var', 'ref') and o.get('n'):
                out.add('glob.' + str(o['n']))
            for x in o.values():
                if isinstance(x, (dict, list)):
                    walk(x)
    walk(fn.get('body'))
    walk(fn.get('inits'))
    return out & SHARED


def coverage(prog, tasks, results):
    """every body that names a shared list or its lock was verified or inlined into a verified one"""
    from program import base_name
    seen = {t.fn for t in tasks}
    for r in results:
        seen |= set(r.get('inlined', ()))
    bad = []
    for k, fn in prog.fns.items():
        s = names_shared(fn)
        if s and fn['name'] not in seen and base_name(k) not in seen:
            bad.append((fn['name'], 'names %s but is under no lock contract' % ', '.join(sorted(s))))
    fields = {r['name'].split('::')[-1] + '.' + f['n'] for r in prog.recs.values() for f in r['fields']} | {'glob.' + g for g in prog.globals}
    return bad + [('shared state', '%s is gone' % x) for x in sorted(SHARED - fields)]


POST = {'C14': coverage}
