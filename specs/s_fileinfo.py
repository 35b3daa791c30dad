"""C13: metadata records, listings, remote classification."""
import z3
import fsmodel
from core import FA
from engine import And, Or, Not, Implies
from runner import Group, Task, Lemma


def mods(w):
    return fsmodel.models(w, fsmodel.get(w))


OPTS = {'mem': True, 'debug': bool(__import__('os').environ.get('VDEBUG'))}
GS = Group('fileinfo', fsmodel.contracts, smode='S', models=mods, ghosts=fsmodel.ghosts, opts=OPTS)
GU = Group('listing', fsmodel.contracts, smode='U', models=mods, ghosts=fsmodel.ghosts, axioms=lambda w: fsmodel.get(w).axioms(), opts=OPTS)
FI, P = 'efsw::FileInfo::', 'efsw::Platform::FileSystem::'
TASKS = [Task(GS, FI + n) for n in ('inodeSupported', 'getInfo', 'getRealInfo', 'isDirectory', 'isRegularFile', 'isReadable', 'linksTo', 'operator==',
                                    'operator!=', 'sameInode', 'operator=', '<ctor>', 'exists', 'isLink')]
TASKS += [Task(GS, P + 'isDirectory'), Task(GS, 'efsw::FileSystem::isDirectory'), Task(GS, P + 'isRemoteFS'), Task(GS, 'efsw::FileSystem::isRemoteFS'),
          Task(GU, P + 'filesInfoFromPath'), Task(GU, 'efsw::FileSystem::filesInfoFromPath'), Task(GS, 'efsw::FileSystem::getLinkRealPath')]


def lemmas(w):
    fs = fsmodel.get(w)
    d, k, p = z3.Consts('d k p', w.Str)
    nm = [z3.Length(k) > 0, Not(z3.Contains(k, z3.StringVal('/')))]
    dk = z3.Concat(d, k)
    return [('a path that ends in a name is normalised', nm, fs.norm(dk) == dk), ('and has nothing to strip', nm, fs.strip1(dk) == dk),
            ('adding a separator', [], And(fs.ends(fs.adds(p)) == (p != z3.StringVal('')), fs.adds(fs.adds(p)) == fs.adds(p), fs.strip(fs.adds(p)) == fs.strip(p)))]


TASKS.append(Lemma(GS, 'path functions', lemmas))
