"""Vocabulary of the inotify backend: registry, kernel watch set, callback trace,
and the registry invariant every function preserves."""
import z3
import fsmodel
from core import FA, Place, MapIter, VecIter, CStr, Ptr, Unsupported
from engine import Contract, And, Or, Not, If, Implies, T, F

Sel = z3.Select
FW = 'FileWatcherInotify.'
W, RW, REF, DEL = FW + 'mWatches', FW + 'mRealWatches', FW + 'mWatchesRef', FW + 'mDeletedWatches'
OK, MFW = 'FileWatcherImpl.mInitOK', 'FileWatcherImpl.mFileWatcher'
FOLLOW, SCOPE = 'FileWatcher.mFollowSymlinks', 'FileWatcher.mOutOfScopeLinks'
ID, DIR, LIS, REC, OLD = ('Watcher.' + f for f in ('ID', 'Directory', 'Listener', 'Recursive', 'OldFileName'))
PAR, IID, INFO, SYN = ('WatcherInotify.' + f for f in ('Parent', 'InotifyID', 'DirInfo', 'syntheticEvents'))
FIELDS = (ID, DIR, LIS, REC, OLD, PAR, IID, INFO, SYN)
CODE, TEXT = 'glob.efsw::Errors::LastErrorCode', 'glob.efsw::Errors::LastError'
KW, ANC, TR, TRN, ERRNO = '$kw', '$anc', '$tr', '$trn', '$errno'
ASKED, SEGOF, POSOF, LAST = '$asked', '$segof', '$posof', '$last'
IN_MODIFY, IN_CLOSE_WRITE, IN_MOVED_FROM, IN_MOVED_TO, IN_CREATE, IN_DELETE = 0x2, 0x8, 0x40, 0x80, 0x100, 0x200
IN_Q_OVERFLOW = 0x4000
ADD, DELETE, MODIFIED, MOVED, MISSED = 1, 2, 3, 4, 100
ERR = {'NoError': 0, 'FileNotFound': -1, 'FileRepeated': -2, 'FileOutOfScope': -3, 'FileNotReadable': -4, 'FileRemote': -5,
       'WatcherFailed': -6, 'Unspecified': -7}


def ev_sort(w):
    if 'Event' not in w.cache:
        w.cache['Event'] = w._dt('Event', [('l', w.Int), ('id', w.Int), ('dir', w.Str), ('name', w.Str), ('act', w.Int), ('old', w.Str)])
    return w.cache['Event']


def ghosts(w):
    I, B, S = w.Int, w.Bool, w.Str
    A = z3.ArraySort
    g = fsmodel.ghosts(w)
    g.update({KW: A(I, B), ANC: A(I, A(I, B)), TR: A(I, ev_sort(w)), TRN: I, ERRNO: I, '$alive': A(I, B),
              ASKED: A(I, A(S, B)), SEGOF: A(I, I), POSOF: A(I, A(S, I)), LAST: I})
    return g


class View:
    """the registry as seen in one state (get: heap name -> term)"""

    def __init__(self, w, get):
        self.w, self.get = w, get

    def f(self, n, p):
        return Sel(self.get(n), p)

    def dom(self, m, k):
        return Sel(self.w.acc(self.get(m), 'dom'), k)

    def val(self, m, k):
        return Sel(self.w.acc(self.get(m), 'val'), k)

    def has(self, i):
        return self.dom(W, i)

    def at(self, i):
        return self.val(W, i)

    def alive(self, p):
        return Sel(self.get('$alive'), p)

    def anc(self, p, q):
        return Sel(Sel(self.get(ANC), p), q)

    def reg(self, p):
        return And(self.has(self.f(IID, p)), self.at(self.f(IID, p)) == p)

    def root(self, p):
        return self.f(PAR, p) == 0

    def ndel(self):
        return self.w.acc(self.get(DEL), 'len')

    def dele(self, j):
        return Sel(self.w.acc(self.get(DEL), 'data'), j)

    def inv(self):
        """[(label, formula)]"""
        w = self.w
        i, j, k, p, q = (z3.Int(x) for x in ('i?', 'j?', 'k?', 'p?', 'q?'))
        s = z3.Const('s?', w.Str)
        out = []
        a = self.at(i)
        out.append(('every registered watch is alive and filed under its own id',
                    FA(i, Implies(self.has(i), And(i > 0, a != 0, self.alive(a), self.f(IID, a) == i)), self.has(i), a)))
        out.append(('the user watches are exactly the registered watches without a parent',
                    FA(i, And(self.dom(RW, i) == And(self.has(i), self.root(a)), Implies(self.dom(RW, i), And(self.val(RW, i) == a, self.f(ID, a) == i))),
                       self.dom(RW, i), self.f(PAR, a))))
        par = self.f(PAR, a)
        out.append(("a watch's parent is registered, belongs to the same user watch and is recursive",
                    FA(i, Implies(And(self.has(i), par != 0), And(self.reg(par), self.f(ID, par) == self.f(ID, a), self.f(LIS, par) == self.f(LIS, a),
                                                                  self.f(REC, par), self.f(REC, a), self.f(SYN, par) == self.f(SYN, a))), par)))
        # $anc: proper ancestors (meaningful among registered watches)
        z = self.at(k)
        out.append(('ancestors are the parent and its ancestors',
                    FA([i, k], Implies(And(self.has(i), self.has(k)), self.anc(a, z) == And(par != 0, Or(z == par, self.anc(par, z)))), z3.MultiPattern(self.anc(a, z), par))))
        out.append(('no watch is its own ancestor', FA(i, Implies(self.has(i), Not(self.anc(a, a))), a)))
        out.append(('ancestors belong to the same user watch and are recursive', FA([i, k], Implies(And(self.has(i), self.has(k), self.anc(a, z)), And(self.f(ID, z) == self.f(ID, a), self.f(REC, z))), self.anc(a, z))))
        r = self.f(ID, a)
        out.append(('a watch with a parent descends from its user watch',
                    FA(i, Implies(And(self.has(i), par != 0), And(self.has(r), self.root(self.at(r)), self.anc(a, self.at(r)))), par)))
        out.append(('paths refer to the registered watch of that directory',
                    FA(s, Implies(self.dom(REF, s), And(self.has(self.val(REF, s)), self.f(DIR, self.at(self.val(REF, s))) == s)), self.dom(REF, s), self.val(REF, s))))
        out.append(('the kernel watches no descriptor the registry has forgotten', FA(i, Implies(Sel(self.get(KW), i), self.has(i)), Sel(self.get(KW), i))))
        d = self.dele(j)
        out.append(('a removed watch is alive until released, and not registered',
                    FA(j, Implies(And(j >= 0, j < self.ndel()), And(d != 0, self.alive(d), Not(self.reg(d)))), d)))
        out.append(('a removed watch is released once', FA([i, j], Implies(And(i >= 0, i < j, j < self.ndel()), self.dele(i) != d), z3.MultiPattern(self.dele(i), d))))
        return out
