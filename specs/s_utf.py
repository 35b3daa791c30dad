"""C11: UTF-8/16/32 steps and whole-string conversions (Utf.inl), on plain element sequences."""
import os, z3
from core import FA, Place, VecIter, BackIns
from engine import Contract, And, Or, Not, If, Implies, T, F
from runner import Group, Task, Lemma

HERE = os.path.dirname(os.path.abspath(__file__))
EXTRA = [os.path.join(HERE, 'inst', 'utf.cpp')]
WIDTHS = (8, 16, 32)
ELT = {8: 'char', 16: 'unsigned short', 32: 'unsigned int'}
RNG = {8: (-128, 127), 16: (0, 65535), 32: (0, 2**32 - 1)}
IN, OUT = (lambda n: '$in%d' % n), (lambda n: '$out%d' % n)
Sel = z3.Select


def scalar(c):
    return And(c >= 0, c <= 0x10FFFF, Or(c < 0xD800, c > 0xDFFF))


def units(n, c):
    """[(condition, [elements as stored])]: the standard encoding of a scalar value"""
    if n == 32:
        return [(T, [c])]
    if n == 16:
        v = c - 0x10000
        return [(c < 0x10000, [c]), (c >= 0x10000, [0xD800 + v / 1024, 0xDC00 + v % 1024])]
    s = lambda b: b - 256
    return [(c < 0x80, [c]),
            (And(c >= 0x80, c < 0x800), [s(0xC0 + c / 64), s(0x80 + c % 64)]),
            (And(c >= 0x800, c < 0x10000), [s(0xE0 + c / 4096), s(0x80 + c / 64 % 64), s(0x80 + c % 64)]),
            (c >= 0x10000, [s(0xF0 + c / 262144), s(0x80 + c / 4096 % 64), s(0x80 + c / 64 % 64), s(0x80 + c % 64)])]


def stored(n, r):
    return If(r > 127, r - 256, r) if n == 8 else r


def ulen(n, c):
    t = None
    for g, us in reversed(units(n, c)):
        t = z3.IntVal(len(us)) if t is None else If(g, z3.IntVal(len(us)), t)
    return t


def uelt(n, c, i):
    """i-th element of the encoding (i any term)"""
    t = z3.IntVal(0)
    for g, us in reversed(units(n, c)):
        e = us[-1]
        for k in range(len(us) - 2, -1, -1):
            e = If(i == k, us[k], e)
        t = If(g, e, t)
    return t


class X:
    """spec functions of one width: how many elements an encode writes, which, and one decode step"""

    def __init__(self, w):
        A, I = z3.ArraySort(w.Int, w.Int), w.Int
        self.nx = {n: z3.Function('next%d' % n, A, I, I, I) for n in WIDTHS}      # step(data, at, end) -> position after
        self.cp = {n: z3.Function('code%d' % n, A, I, I, I) for n in WIDTHS}
        self.pos = {n: z3.Function('pos%d' % n, A, I, I, I, I) for n in WIDTHS}   # position after k steps from b
        self.en = {n: z3.Function('enclen%d' % n, I, I) for n in WIDTHS}          # elements written for a code (default replacement)
        self.ee = {n: z3.Function('encelt%d' % n, I, I, I) for n in WIDTHS}
        self.off = {(m, n): z3.Function('off%d_%d' % (m, n), A, I, I, I, I) for m in WIDTHS for n in WIDTHS}   # output offset at a step position
        self.on = {n: z3.Function('on%d' % n, A, I, I, I, w.Bool) for n in WIDTHS}    # a position the steps from b reach

    def enc(self, n, c):
        return z3.IntVal(1) if n == 32 else self.en[n](c)

    def elt(self, n, c, i):
        return c if n == 32 else self.ee[n](c, i)

    def chain(self, m, n, d, b, e):
        """definition of the positions the steps reach and of the output offset there"""
        p, q = z3.Ints('p? q?')
        on, nx, cp, off = self.on[m], self.nx[m], self.cp[m], self.off[(m, n)]
        out = [on(d, b, e, b), off(d, b, e, b) == 0,
               FA(p, Implies(And(on(d, b, e, p), p < e), And(on(d, b, e, nx(d, p, e)), off(d, b, e, nx(d, p, e)) == off(d, b, e, p) + self.enc(n, cp(d, p, e)))), nx(d, p, e)),
               FA([p, q], Implies(And(on(d, b, e, p), on(d, b, e, q), p < q, p < e), nx(d, p, e) <= q), z3.MultiPattern(nx(d, p, e), on(d, b, e, q))),
               FA(p, Implies(on(d, b, e, p), off(d, b, e, p) >= 0), off(d, b, e, p))]
        if m == 32:
            out.append(FA(p, And(nx(d, p, e) == p + 1, cp(d, p, e) == Sel(d, p)), nx(d, p, e)))
            out.append(FA(p, And(nx(d, p, e) == p + 1, cp(d, p, e) == Sel(d, p)), Sel(d, p)))
        return out


def get(w):
    if 'utfx' not in w.cache:
        w.cache['utfx'] = X(w)
    return w.cache['utfx']


def wid(t):
    return {'std::vector<char>': 8, 'std::vector<unsigned short>': 16, 'std::vector<unsigned int>': 32}.get(t)


def ghosts(w):
    g = {}
    for n in WIDTHS:
        s = w.sort('std::vector<%s>' % ELT[n])
        g[IN(n)] = g[OUT(n)] = s
    return g


def models(w):
    def param(e, p):
        t = p['t']
        for pre, n in (('__gnu_cxx::__normal_iterator<', None), ('std::back_insert_iterator<', 1)):
            if t.startswith(pre):
                inner = t[len(pre):-1]
                if n is None:
                    inner = inner[inner.index(',') + 1:]
                    k = wid(inner)
                    if k is None:
                        return None
                    i = e.fresh(p['n'], w.Int)
                    return VecIter(Place(('h', IN(k))), i)
                k = wid(inner)
                return BackIns(Place(('h', OUT(k)))) if k else None
        return None
    return {'$param': param}


def contracts(w):
    x = get(w)
    I = z3.Int
    j, k, c0 = I('j?'), I('k?'), I('c?')
    cs = []
    acc = w.acc

    def src(c, n, get):
        v = get(IN(n))
        return acc(v, 'data'), acc(v, 'len')

    def inreq(n, strict):
        def f(c):
            d, L = src(c, n, c.old)
            b, e = c.a(0).idx, c.a(1).idx
            lo, hi = RNG[n]
            return [('the range lies in the sequence', And(b >= 0, (b < e) if strict else (b <= e), e <= L, L < 2**62)),
                    ('elements have their type\'s range', FA(j, Implies(And(j >= 0, j < L), And(Sel(d, j) >= lo, Sel(d, j) <= hi)), Sel(d, j)))]
        return f

    def whole(m, n, name):
        def ens(c):
            v, v0, v1 = c.old(IN(m)), c.old(OUT(n)), c.new(OUT(n))
            d, b, e = acc(v, 'data'), c.a(0).idx, c.a(1).idx
            l0, l1, d0, d1 = acc(v0, 'len'), acc(v1, 'len'), acc(v0, 'data'), acc(v1, 'data')
            out = [('what was written before stays', FA(j, Implies(And(j >= 0, j < l0), Sel(d1, j) == Sel(d0, j)), Sel(d1, j)))]
            if m == n:
                return out + [('a copy of the elements', And(l1 == l0 + (e - b), FA(j, Implies(And(j >= b, j < e), Sel(d1, l0 + j - b) == Sel(d, j)), Sel(d, j))))]
            on, off, cp = x.on[m], x.off[(m, n)], x.cp[m]
            if n == 32:
                return out + [('the steps reach the end and nothing else is written', And(on(d, b, e, e), l1 == l0 + off(d, b, e, e))),
                              ('each step writes its value at its place', FA(j, Implies(And(on(d, b, e, j), j >= b, j < e), Sel(d1, l0 + off(d, b, e, j)) == cp(d, j, e)), on(d, b, e, j)))]
            return out + [('the steps reach the end and nothing else is written', And(on(d, b, e, e), l1 == l0 + off(d, b, e, e))),
                          ('each step writes the encoding of its value at its place', FA([j, k], Implies(And(on(d, b, e, j), j >= b, j < e, k >= 0, k < x.enc(n, cp(d, j, e))),
                           Sel(d1, l0 + off(d, b, e, j) + k) == x.elt(n, cp(d, j, e), k)), z3.MultiPattern(on(d, b, e, j), x.elt(n, cp(d, j, e), k))))]

        def req(c):
            if c.check:
                c.e.utfb = (c.a(0).idx, c.a(1).idx)
            return inreq(m, False)(c) + [('room', acc(c.old(OUT(n)), 'len') >= 0)]

        def ax(c):
            return x.chain(m, n, acc(c.old(IN(m)), 'data'), c.a(0).idx, c.a(1).idx) if m != n else []

        def inv(part):
            def f(lc):
                if not isinstance(lc.cursor, VecIter) or not hasattr(lc.e, 'utfb'):
                    return None
                b, e = lc.e.utfb
                d, cur = acc(lc.init(IN(m)), 'data'), lc.cursor.idx
                v0, v1 = lc.init(OUT(n)), lc.new(OUT(n))
                l0, l1, d0, d1 = acc(v0, 'len'), acc(v1, 'len'), acc(v0, 'data'), acc(v1, 'data')
                if part == 'written before stays':
                    return And(l1 >= l0, FA(j, Implies(And(j >= 0, j < l0), Sel(d1, j) == Sel(d0, j)), Sel(d1, j)))
                if part == 'in range':
                    return And(cur >= b, cur <= e)
                if m == n:
                    if part == 'written so far':
                        return And(l1 == l0 + (cur - b), FA(j, Implies(And(j >= b, j < cur), Sel(d1, l0 + j - b) == Sel(d, j)), Sel(d, j)))
                    return None
                on, off, cp = x.on[m], x.off[(m, n)], x.cp[m]
                if part == 'at a step':
                    return And(on(d, b, e, cur), l1 == l0 + off(d, b, e, cur))
                if part == 'written so far' and n == 32:
                    return FA(j, Implies(And(on(d, b, e, j), j >= b, j < cur), And(l0 + off(d, b, e, j) < l1, Sel(d1, l0 + off(d, b, e, j)) == cp(d, j, e))), on(d, b, e, j))
                if part == 'written so far':
                    return FA([j, k], Implies(And(on(d, b, e, j), j >= b, j < cur, k >= 0, k < x.enc(n, cp(d, j, e))),
                              And(l0 + off(d, b, e, j) + k < l1, Sel(d1, l0 + off(d, b, e, j) + k) == x.elt(n, cp(d, j, e), k))), z3.MultiPattern(on(d, b, e, j), x.elt(n, cp(d, j, e), k)))
            f.__name__ = part
            return f
        return Contract(name, 3, requires=req, ensures=ens, modifies=(OUT(n),), axioms=ax, call_result=lambda c: c.args[2],
                        loops=tuple(inv(t) for t in ('written before stays', 'in range', 'at a step', 'written so far')))

    for n in WIDTHS:
        U = 'efsw::Utf<%d>::' % n

        def dec(c, n=n):
            d, L = src(c, n, c.old)
            b, e, r, o = c.a(0).idx, c.a(1).idx, c.res.idx, c.a2(2)
            out = [('a step consumes at least one element', r > b), ('a step stays within the range', r <= e), ('the code is a 32-bit value', And(o >= 0, o < 2**32))]
            if c.check:
                # a standard encoding decodes to its value
                for g, us in units(n, c0):
                    out.append(('the standard encoding of a scalar value decodes to it (%d elements)' % len(us),
                                z3.ForAll([c0], Implies(And(scalar(c0), g, b + len(us) <= e, *[Sel(d, b + i) == u for i, u in enumerate(us)]), And(o == c0, r == b + len(us))))))
            else:
                out += [('', r == x.nx[n](d, b, e)), ('', o == x.cp[n](d, b, e))]
            return out
        cs.append(Contract(U + 'Decode', 4, requires=inreq(n, True), ensures=dec, modifies=('arg:2',),
                           call_result=lambda c: VecIter(c.a(0).place, c.e.fresh('next', w.Int))))

        def nxt(c, n=n):
            d, L = src(c, n, c.old)
            b, e, r = c.a(0).idx, c.a(1).idx, c.res.idx
            return [('one decode step', And(r > b, r <= e, r == x.nx[n](d, b, e)))]
        cs.append(Contract(U + 'Next', 2, requires=inreq(n, True), ensures=nxt, call_result=lambda c: VecIter(c.a(0).place, c.e.fresh('next', w.Int)),
                           axioms=(lambda c: ax32(c)) if n == 32 else None))

        def ax32(c):
            d, L = src(c, 32, c.old)
            return [FA([j, k], x.nx[32](d, j, k) == j + 1, x.nx[32](d, j, k))]

        def encp(c, n=n):
            v0, v1 = c.old(OUT(n)), c.new(OUT(n))
            l0, l1, d0, d1 = acc(v0, 'len'), acc(v1, 'len'), acc(v0, 'data'), acc(v1, 'data')
            inp, rep = c.a(0), c.a(2)
            out = [('what was written before stays', FA(j, Implies(And(j >= 0, j < l0), Sel(d1, j) == Sel(d0, j)), Sel(d1, j)))]
            if c.check:
                if n == 32:
                    out.append(('the value itself', And(l1 == l0 + 1, Sel(d1, l0) == inp)))
                    return out
                for g, us in units(n, inp):
                    out.append(('the standard %d-element encoding' % len(us), Implies(And(scalar(inp), g), And(l1 == l0 + len(us), *[Sel(d1, l0 + i) == u for i, u in enumerate(us)]))))
                out.append(('only the replacement for anything else', Implies(Not(scalar(inp)), And(l1 == l0 + If(rep != 0, 1, 0), Implies(rep != 0, Sel(d1, l0) == stored(n, rep))))))
            else:
                out.append(('', Implies(rep == 0, And(l1 == l0 + x.en[n](inp), FA(j, Implies(And(j >= l0, j < l1), Sel(d1, j) == x.ee[n](inp, j - l0)), Sel(d1, j))))))
                out.append(('', l1 >= l0))
            return out
        cs.append(Contract(U + 'Encode', 3, requires=lambda c: [('a 32-bit value', And(c.a(0) >= 0, c.a(0) < 2**32)), ('a replacement element', And(c.a(2) >= 0, c.a(2) < (256 if False else 2**32)))] +
                           ([('an 8-bit replacement', c.a(2) < 256)] if 'Utf<8>' in U else []),
                           ensures=encp, modifies=(OUT(n),), call_result=lambda c: c.args[1]))

        # whole strings
        def stepfacts(c, n=n):
            d, L = src(c, n, c.old)
            b, e = c.a(0).idx, c.a(1).idx
            p = x.pos[n]
            return [p(d, b, e, 0) == b, FA(k, Implies(k >= 0, p(d, b, e, k + 1) == x.nx[n](d, p(d, b, e, k), e)), x.nx[n](d, p(d, b, e, k), e))] + \
                ([FA(k, Implies(k >= 0, p(d, b, e, k) == b + k), p(d, b, e, k))] if n == 32 else [])

        def cntloop(lc, n=n):
            d = acc(lc.init(IN(n)), 'data')
            ls = [v for kk, v in lc.cur.env.items() if z3.is_expr(v) and z3.is_int(v) and lc.cur.types.get(kk, ('', ''))[0] == 'unsigned long']
            if not ls or not hasattr(lc.e, 'utfb') or not isinstance(lc.cursor, VecIter):
                return None
            b, e = lc.e.utfb
            l, cur = ls[0], [lc.cursor]
            return And(l >= 0, l <= cur[0].idx - b, cur[0].idx == x.pos[n](d, b, e, l), cur[0].idx >= b, cur[0].idx <= e)
        cntloop.__name__ = 'steps so far'

        def cnt(c, n=n):
            d, L = src(c, n, c.old)
            b, e = c.a(0).idx, c.a(1).idx
            return [('as many steps as reach the end', And(c.res >= 0, x.pos[n](d, b, e, c.res) == e))]

        def remember(c, f):
            c.e.utfb = (c.a(0).idx, c.a(1).idx)
            return f(c)
        cs.append(Contract(U + 'Count', 2, requires=(lambda r: lambda c: remember(c, r))(inreq(n, False)), ensures=cnt, loops=(cntloop,), axioms=stepfacts))
        for n2, f2 in ((8, 'toUtf8'), (16, 'ToUtf16'), (32, 'ToUtf32')):
            cs.append(whole(n, n2, U + f2))
    return cs


def axioms(w):
    x = get(w)
    c, i = z3.Ints('c? i?')
    out = []
    for n in (8, 16):     # what Encode writes with the default replacement
        L = x.en[n](c)
        out.append(FA(c, And(L == If(scalar(c), ulen(n, c), 0), L >= 0), L))
        out.append(FA([c, i], x.ee[n](c, i) == uelt(n, c, i), x.ee[n](c, i)))
    return out


def lossless(m, n):
    def f(w):
        x = get(w)
        A = z3.ArraySort(w.Int, w.Int)
        d, t = z3.Const('d', A), z3.Const('t', A)
        em, en = z3.Function('em', w.Int, w.Int), z3.Function('enn', w.Int, w.Int)
        b, e, N, k = z3.Ints('b e N k')
        p, i = z3.Ints('p? i?')
        tk = Sel(t, k)
        hyp = [b >= 0, k >= 0, k < N, e == b + em(N), em(0) == 0, en(0) == 0, scalar(tk),
               em(k + 1) == em(k) + ulen(m, tk), em(k + 1) <= em(N), en(k + 1) == en(k) + ulen(n, tk)]
        hyp += [Implies(z3.IntVal(r) < ulen(m, tk), Sel(d, b + em(k) + r) == uelt(m, tk, z3.IntVal(r))) for r in range(4)]
        at = b + em(k)
        # Decode's contract at this position (proved for every scalar value)
        for g, us in units(m, tk):
            hyp.append(Implies(And(scalar(tk), g, at + len(us) <= e, *[Sel(d, at + r) == u for r, u in enumerate(us)]), And(x.cp[m](d, at, e) == tk, x.nx[m](d, at, e) == at + len(us))))
        hyp += x.chain(m, n, d, b, e)
        if n != 32:
            hyp += [x.en[n](tk) == If(scalar(tk), ulen(n, tk), 0)]
        ih = [x.on[m](d, b, e, at), x.off[(m, n)](d, b, e, at) == en(k)]
        nxt = b + em(k + 1)
        return [('base: the steps start at the first value', hyp, And(x.on[m](d, b, e, b + em(0)), x.off[(m, n)](d, b, e, b + em(0)) == en(0))),
                ('step: the k-th decode step yields the k-th value', hyp + ih, x.cp[m](d, at, e) == tk),
                ('step: the next step starts at the next value and writes after its encoding', hyp + ih, And(x.on[m](d, b, e, nxt), x.off[(m, n)](d, b, e, nxt) == en(k + 1)))]
    return f


OPTS = {'mem': True, 'arrays': True, 'bits': True, 'debug': bool(os.environ.get('VDEBUG'))}
G = Group('utf', contracts, models=models, ghosts=ghosts, axioms=axioms, opts=OPTS)
TASKS = []
for _n in WIDTHS:
    for _f in ('Decode', 'Encode', 'Next', 'Count'):
        TASKS.append(Task(G, 'efsw::Utf::' + _f, key='Utf<%d>::%s<%s' % (_n, _f, '__gnu_cxx::__normal_iterator<P<%s>,std::vector' % ELT[_n] if _f != 'Encode' else 'std::back_insert_iterator<std::vector')))
for _m in WIDTHS:
    for _n, _f in ((8, 'toUtf8'), (16, 'ToUtf16'), (32, 'ToUtf32')):
        TASKS.append(Task(G, 'efsw::Utf::' + _f, key='Utf<%d>::%s<__gnu_cxx::__normal_iterator<P<%s>,std::vector' % (_m, _f, ELT[_m])))
        if _m != _n:
            TASKS.append(Lemma(G, 'valid text is converted without loss, %d to %d' % (_m, _n), lossless(_m, _n)))
