"""C12: path helpers (character-exact, over z3 sequences)."""
import z3
from engine import Contract, And, Or, Not, If, Implies
from runner import Group, Task

SL = z3.StringVal('/')


def ends(s):
    return And(z3.Length(s) > 0, z3.SubString(s, z3.Length(s) - 1, 1) == SL)


def strip(s):
    return If(ends(s), z3.SubString(s, 0, z3.Length(s) - 1), s)


def add(s):
    return If(And(z3.Length(s) > 0, Not(ends(s))), z3.Concat(s, SL), s)


def contracts(w):
    FS = 'efsw::FileSystem::'
    cs = []
    cs.append(Contract('efsw::Platform::FileSystem::getOSSlash', 0, result=lambda c: z3.IntVal(47)))
    cs.append(Contract(FS + 'getOSSlash', 0, result=lambda c: z3.IntVal(47)))
    cs.append(Contract(FS + 'slashAtEnd', 1, result=lambda c: ends(c.a(0))))
    cs.append(Contract(FS + 'dirAddSlashAtEnd', 1, modifies=('arg:0',), ensures=lambda c: [
        ('exactly one separator appended to a non-empty path without one', c.a2(0) == add(c.a(0)))]))
    cs.append(Contract(FS + 'dirRemoveSlashAtEnd', 1, modifies=('arg:0',), ensures=lambda c: [
        ('at most one trailing separator stripped, the rest untouched', c.a2(0) == strip(c.a(0)))]))

    def fname(c):
        p = c.a(0)
        return [('no separator in the file name', Not(z3.Contains(c.res, SL))),
                ('the file name ends the path without its trailing separator', z3.SuffixOf(c.res, strip(p))),
                ('it starts the path or follows a separator', Or(c.res == strip(p), z3.SuffixOf(z3.Concat(SL, c.res), strip(p))))]
    cs.append(Contract(FS + 'fileNameFromPath', 1, modifies=('arg:0',), ensures=fname))

    def parent(c):
        p = strip(c.a(0))
        n = z3.Length(c.res)
        return [('the parent part starts the path', z3.PrefixOf(c.res, p)),
                ('the parent part ends in a separator unless the path has none', Or(ends(c.res), And(c.res == p, Not(z3.Contains(p, SL))))),
                ('what follows the parent part has no separator', Not(z3.Contains(z3.SubString(p, n, z3.Length(p) - n), SL)))]
    cs.append(Contract(FS + 'pathRemoveFileName', 1, modifies=('arg:0',), ensures=parent))
    cs.append(Contract(FS + 'precomposeFileName', 1, result=lambda c: c.a(0)))
    return cs


G = Group('paths', contracts, smode='S')
FS = 'efsw::FileSystem::'
TASKS = [Task(G, n) for n in ('efsw::Platform::FileSystem::getOSSlash', FS + 'getOSSlash', FS + 'slashAtEnd', FS + 'dirAddSlashAtEnd',
                              FS + 'dirRemoveSlashAtEnd', FS + 'fileNameFromPath', FS + 'pathRemoveFileName', FS + 'precomposeFileName')]


# ---- loops over characters: uninterpreted strings read through size()/operator[]
def contracts2(w):
    st = w.lib.s
    cs = []
    i = z3.Int('i?')

    def sw(c):
        a, b = c.a(0), c.a(1)
        la = st.len(a)
        pre = And(la > 0, la <= st.len(b), z3.ForAll([i], Implies(And(i >= 0, i < la), st.chr(a, i) == st.chr(b, i)), patterns=[st.chr(a, i)]))
        return [('a prefix is recognised', Implies(pre, c.res == la - 1)), ('anything else is rejected', Implies(Not(pre), c.res == -1))]
    cs.append(Contract('efsw::String::strStartsWith', 2, ensures=sw))

    seg = z3.Function('seg', w.Str, w.Int, w.Int, w.Str)       # separator-free piece ending before position i
    cnt = z3.Function('npieces', w.Str, w.Int, w.Bool, w.Int, w.Int)   # pieces completed before position i
    E = w.strlit('')

    def piece_at(s, c, e, k):
        return And(st.chr(s, k) == c, Or(e, seg(s, c, k) != E))

    def ax(c):
        s, ch, e = c.a(0), c.a(1), c.a(2)
        w.strlit('')
        return [seg(s, ch, 0) == E, cnt(s, ch, e, 0) == 0,
                z3.ForAll([i], Implies(i >= 0, And(
                    seg(s, ch, i + 1) == If(st.chr(s, i) == ch, E, st.cat(seg(s, ch, i), st.of_char(st.chr(s, i)))),
                    cnt(s, ch, e, i + 1) == cnt(s, ch, e, i) + If(piece_at(s, ch, e, i), 1, 0), cnt(s, ch, e, i) >= 0)), patterns=[st.chr(s, i)])]

    def upto(c0, v, s, ch, e, n):
        return And(w.acc(v, 'len') == cnt(s, ch, e, n),
                   z3.ForAll([i], Implies(And(i >= 0, i < n, piece_at(s, ch, e, i)),
                                          And(cnt(s, ch, e, i) >= 0, cnt(s, ch, e, i) < cnt(s, ch, e, n),
                                              z3.Select(w.acc(v, 'data'), cnt(s, ch, e, i)) == seg(s, ch, i))), patterns=[st.chr(s, i)]))

    def post(c):
        s, ch, e, v = c.a(0), c.a(1), c.a(2), c.res
        n = st.len(s)
        last = seg(s, ch, n)
        ln = w.acc(v, 'len')
        return [('as many pieces as terminated ones plus a non-empty last one', ln == cnt(s, ch, e, n) + If(last != E, 1, 0)),
                ('every terminated piece is returned in its place', z3.ForAll([i], Implies(And(i >= 0, i < n, piece_at(s, ch, e, i)),
                    z3.Select(w.acc(v, 'data'), cnt(s, ch, e, i)) == seg(s, ch, i)), patterns=[st.chr(s, i)])),
                ('the last piece comes last', Implies(last != E, z3.Select(w.acc(v, 'data'), ln - 1) == last))]

    def inv(lc):
        env = lc.cur.env
        par = [lc.cur.env[k] for k in lc.cur.env if isinstance(k, tuple) and k[0] == 'par']
        s, ch, e = par[0], par[1], par[2]
        vec = [v for k, v in env.items() if z3.is_expr(v) and v.sort().name().startswith('Vec_') and not isinstance(k, tuple)][0]
        ix = [v for k, v in env.items() if not isinstance(k, tuple) and z3.is_expr(v) and z3.is_int(v) and k != 'this'][0]
        tmp = [v for k, v in env.items() if not isinstance(k, tuple) and z3.is_expr(v) and v.sort() == w.Str][0]
        return And(ix >= 0, ix <= st.len(s), upto(None, vec, s, ch, e, ix), tmp == seg(s, ch, ix))
    cs.append(Contract('efsw::String::split', 3, axioms=ax, ensures=post, loops=(inv,)))
    return cs


G2 = Group('strings', contracts2)
TASKS += [Task(G2, 'efsw::String::strStartsWith', key='strStartsWith(R<std::basic_string<char>>'), Task(G2, 'efsw::String::split', key='split(R<std::basic_string<char>>')]
