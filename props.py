"""Which specifications, tasks and bounded parts decide which property."""
import importlib

COMMON_TRUST = [
    'clang 18 front end and the AST exporter tool/export.cpp (drops: debug macros compiled out with NDEBUG, source ranges, FD_ZERO/FD_SET)',
    'the symbolic executor vc/engine.py and the memory model in vc/core.py (objects of one class do not overlap; field-array heap)',
    'z3 (python package) and cvc5 as SMT back ends']
ASSUME = [
    'machine integers are treated as mathematical integers with range facts, except in the UTF contracts (bit vectors)',
    'strings are shorter than 2^31 bytes; allocation succeeds; no C++ exception is thrown',
    'Linux build configuration (inotify), compiled with -DNDEBUG as the project build does']

PROPS = {
    'C10': dict(specs=['s_errors'], harness='h_errors', hbudget=4, bound='histories of up to 20000 record/reset calls over 7 codes and 6 texts'),
    'C13': dict(specs=['s_fileinfo'], harness='h_fileinfo', hbudget=5,
                bound='random directories of up to 6 entries of every kind with random modes and owners, plus /, the empty path, missing and relative paths',
                assume=['stat, lstat, realpath, opendir/readdir and statfs report one consistent set of facts during one call of the verified function',
                        'directory entry names are non-empty, distinct and contain no separator']),
    'C01': dict(specs=['s_scan'], harness='h_scan', hbudget=8,
                bound='random directories of up to 6 names (files, directories, links, fifos, hard links) edited between polls, including vanishing and replaced directories',
                assume=['stat, lstat and opendir/readdir report one consistent set of facts during one scan', 'directory entry names are non-empty, distinct and contain no separator']),
    'C12': dict(specs=['s_paths'], harness='h_paths', hbudget=6,
                bound='all paths over {a,b,/} up to 7 characters plus random ones up to 40; all prefix pairs up to 4 characters'),
}

PROPS['C11'] = dict(specs=['s_utf'], harness='h_utf', hbudget=6, bound='all code points and all sequences of up to 3 edge elements; random texts and random element sequences',
                    assume=['the conversion templates do not depend on the iterator types they are instantiated with (verified on vectors of elements)',
                            'a decode step is a function of the elements between its position and the end'])
PROPS['C09'] = dict(specs=['s_capi'], recorded=['efsw::FileWatcher::' + f for f in ('<ctor>', '<dtor>', 'addWatch', 'removeWatch', 'watch')], harness='h_capi', hbudget=6,
                    bound='random sequences of C API calls over up to 3 watchers with random callbacks, parameters, options and settings, see harness/h_capi.cpp',
                    assume=['the C++ API is taken as given (C01-C08); the wrapper is verified against a log of the calls that leave it',
                            'the watcher handle is valid and the option array holds the stated number of options'])
PROPS['C14'] = dict(specs=['s_locks'],
                    assume=['values of the lists are not tracked: every path of every function is covered, feasible or not',
                            'a function is verified for one watcher object; locks of different watchers are independent',
                            'no user call on a watcher overlaps its destruction; listeners are called with the locks the caller holds and are not analysed'])
PROPS['C14']['closure'] = False
PROPS['C17'] = dict(PROPS['C14'])
BI = 'random histories of the real inotify backend over a simulated kernel (nested directories, files, links, renames, removals, overflow, batch splits, user adds and removals); see harness/h_inotify.cpp'
AI = ['functional contracts take the watcher as initialised and the calls as sequential (interleavings: C14)', 'listeners do not call back into the watcher',
      'one kernel watch descriptor per directory inode; descriptors are not reused while a removed watch is pending']
for _p in ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C15', 'C16'):
    PROPS[_p] = dict(specs=['s_inotify'], harness='h_inotify', hbudget=50, bound=BI, assume=AI)
BG = 'random histories of the real polling backend over real directories (nested directories, files, links, renames, removals, permission changes, user adds and removals), see harness/h_generic.cpp'
AG = ['functional contracts take the calls as sequential (interleavings: C14); listeners do not call back into the watcher',
      'the snapshot comparison is taken by the contract proved for C01: its lists have distinct entries whose paths carry no trailing separator',
      'the number of polls and reports is counted by ghost state kept per tracked directory; a tracked directory is reached only through its parent']
PROPS['C02'] = dict(specs=['s_generic'], harness='h_generic', hbudget=25, bound=BG, assume=AG)
for _p in ('C06', 'C07', 'C08'):
    PROPS[_p].update(specs=['s_inotify', 's_generic'], harness='h_inotify,h_generic', bound=BI + '; ' + BG, assume=AI + AG[1:])


def tasks(prop):
    out, seen = [], set()
    for m in PROPS[prop]['specs']:
        mod = importlib.import_module(m)
        ts = getattr(mod, 'TASKS_' + prop, None)
        if ts is None:
            ts = mod.TASKS
        for t in ts:
            k = (t.group.name, t.label(), id(t.contract), str(t.opts))
            if k not in seen:
                seen.add(k)
                out.append(t)
    return out


_where = None
LOCKS = ('locks', 'locksG')   # these contracts say nothing about values


def _index():
    global _where
    if _where is None:
        _where = {}
        for p in PROPS:
            for t in tasks(p):
                if t.contract is None and t.group.name not in LOCKS:
                    _where.setdefault(t.fn, []).append((p, t))
    return _where


def proved_where(name):
    w = _index().get(name)
    return w[0][0] if w else None


def tasks_of(name):
    w = _index().get(name, [])
    return [t for p, t in w if p == w[0][0]]
