"""Trusted models of what the verified functions call outside /repo: the C++
standard library containers, strings, iterators, locks and libc/Linux calls.
Every model is counted in the evidence as an assumption when it is used."""
import z3
from core import *
from engine import And, Or, Not, If, Implies, T, F, conj
from program import base_name, parse_type

NPOS = 2**64 - 1
_uf = {}


def UF(name, *sorts):
    k = (name,) + tuple(s.get_id() if hasattr(s, 'get_id') else s for s in sorts)
    if k not in _uf:
        _uf[k] = z3.Function(name, *sorts)
    return _uf[k]


class Strings:
    """string operations in either mode"""

    def __init__(self, w):
        self.w = w
        self.S = w.smode == 'S'
        s, i, b = w.Str, w.Int, w.Bool
        if not self.S:
            self._cat = z3.Function('cat', s, s, s)
            self._suf = z3.Function('suffix', s, s, s)
            self._len = z3.Function('slen', s, i)
            self._chr = z3.Function('chr', s, i, i)
            self._sub = z3.Function('substr', s, i, i, s)
            self._push = z3.Function('push', s, i, s)
            self._lt = z3.Function('strlt', s, s, b)

    def cat(self, a, b):
        if self.S:
            return z3.Concat(a, b)
        e = self.w.strconsts.get('')
        if e is not None:
            if a.eq(e):
                return b
            if b.eq(e):
                return a
        return self._cat(a, b)

    def len(self, a):
        return z3.Length(a) if self.S else self._len(a)

    def chr(self, a, i):
        if self.S:
            c = z3.StrToCode(z3.SubString(a, i, 1))
            return If(i == z3.Length(a), z3.IntVal(0), If(And(c > 127, c < 256), c - 256, c))
        return self._chr(a, i)

    def lt(self, a, b):
        return a < b if self.S else self._lt(a, b)

    def of_char(self, c):
        """string of one char value"""
        if self.S:
            return z3.StrFromCode(If(c < 0, c + 256, c))
        return z3.Function('ofchar', self.w.Int, self.w.Str)(c)

    def axioms(self):
        """facts about the uninterpreted operations; each is a theorem of byte strings (see specs/lemmas)"""
        if self.S:
            return []
        w, s = self.w, self.w.Str
        a, b, c = z3.Consts('sa sb sc', s)
        e = w.strlit('')
        ax = [z3.ForAll([a, b], self._suf(a, self._cat(a, b)) == b, patterns=[self._cat(a, b)]),
              z3.ForAll([a], self._cat(a, e) == a, patterns=[self._cat(a, e)]),
              z3.ForAll([a], self._len(a) >= 0, patterns=[self._len(a)]),
              z3.ForAll([a], (self._len(a) == 0) == (a == e), patterns=[self._len(a)])]
        lits = list(w.strconsts.items())
        if len(lits) > 1:
            ax.append(z3.Distinct(*[v for _, v in lits]))
        for k, v in lits:
            ax.append(self._len(v) == len(k.encode()))
        return ax


class Lib:

    def __init__(self, world, models=None):
        self.w = world
        self.s = Strings(world)
        self.models = {}
        self.used = set()
        self.models.update(models or {})
        w = world

        def tn_of_sort(s):
            return s.name() if s.kind() != z3.Z3_SEQ_SORT else 'Str'
        w.tn_of_sort = tn_of_sort

        def pair_of(k, v):
            nm = 'PairKV_%s_%s' % (k.sort().name(), v.sort().name())
            if nm not in w.cache:
                w.cache[nm] = w._dt(nm, [('first', k.sort()), ('second', v.sort())])
            return w.cache[nm].constructor(0)(k, v)
        w.pair_of = pair_of

    # ------------------------------------------------------------ values
    def S(self, e, v):
        """string term of a std::string / const char* value"""
        if isinstance(v, Place):
            v = e.read(v)
        if isinstance(v, CStr):
            e.oblige('C string argument is not null', Not(v.null), ('mem',)) if e.mem else None
            return v.s
        if isinstance(v, Ptr):
            v = e.read(v.place)
        return v

    def charat(self, e, v, i):
        if isinstance(v, CStr):
            v = v.s
        return self.s.chr(v, i)

    def index(self, e, a, i, n):
        if isinstance(a, CStr):
            return self.s.chr(a.s, i)
        if isinstance(a, Opaque) and a.what == 'array':
            raise Unsupported('array index')
        if isinstance(a, VecIter):
            j = a.idx + i
            e.oblige('array index in range', And(j >= 0, j < self.w.acc(e.read(a.place), 'len')), ('mem',))
            return a.place.sub(('ix', j))
        if isinstance(a, Ptr):
            v = e.read(a.place)
            if isinstance(v, Opaque):
                raise Unsupported('array index')
            return a.place.sub(('ix', i))
        if '$index' in self.models:
            return self.models['$index'](e, a, i, n)
        raise Unsupported('index of %s' % type(a).__name__)

    def bitcast(self, e, v, n):
        if isinstance(v, (Opaque, CStr, Ptr, VecIter)):
            return v
        if z3.is_expr(v) and z3.is_int(v):
            return v
        raise Unsupported('bit cast')

    def binop(self, e, op, a, b, n):
        if op == '+' and isinstance(a, VecIter):
            return VecIter(a.place, a.idx + b, a.rev)
        if op == '-' and isinstance(a, VecIter) and isinstance(b, VecIter):
            return a.idx - b.idx
        if op in ('<', '<=', '>', '>=') and isinstance(a, VecIter):
            return {'<': a.idx < b.idx, '<=': a.idx <= b.idx, '>': a.idx > b.idx, '>=': a.idx >= b.idx}[op]
        return None

    def arith(self, e, op, a, b, t):
        if isinstance(a, VecIter):
            if op == '+':
                return VecIter(a.place, a.idx + b, a.rev)
            if op == '-':
                return VecIter(a.place, a.idx - b, a.rev)
        if isinstance(a, MapIter) and op == '+':
            return self.iternext(e, a)
        return None

    def band(self, e, a, b):
        """a & b, b maybe constant; as an uninterpreted bit set indexed by the constant's bits"""
        if z3.is_int_value(b):
            m = b.as_long()
            if m == 0:
                return z3.IntVal(0)
            f = UF('bitset', self.w.Int, self.w.Int, self.w.Bool)
            bits = [i for i in range(64) if m >> i & 1]
            if len(bits) > 24:
                f2 = UF('bitand', self.w.Int, self.w.Int, self.w.Int)
                return f2(a, b)
            r = z3.IntVal(0)
            terms = [If(f(a, z3.IntVal(i)), z3.IntVal(1 << i), z3.IntVal(0)) for i in bits]
            return terms[0] if len(terms) == 1 else z3.Sum(*terms)
        return UF('bitand', self.w.Int, self.w.Int, self.w.Int)(a, b)

    def equal(self, e, a, b):
        if isinstance(a, Place):
            a = e.read(a)
        if isinstance(b, Place):
            b = e.read(b)
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            if z3.is_true(b.end):
                return a.end
            if z3.is_true(a.end):
                return b.end
            return Or(And(a.end, b.end), And(Not(a.end), Not(b.end), a.key == b.key))
        if isinstance(a, VecIter) and isinstance(b, VecIter):
            return a.idx == b.idx
        if isinstance(a, CStr) and isinstance(b, CStr):
            if z3.is_true(b.null):
                return a.null
            if z3.is_true(a.null):
                return b.null
            return And(a.null == b.null, Implies(Not(a.null), a.s == b.s))
        if isinstance(a, CStr) and z3.is_expr(b) and b.sort() == self.w.Str:
            return a.s == b
        if isinstance(b, CStr) and z3.is_expr(a) and a.sort() == self.w.Str:
            return b.s == a
        if isinstance(a, (CStr, Ptr, Opaque)) and z3.is_int_value(b) and b.as_long() == 0:
            return a.null if isinstance(a, CStr) else F
        if isinstance(b, (CStr, Ptr)) and z3.is_int_value(a) and a.as_long() == 0:
            return b.null if isinstance(b, CStr) else F
        if z3.is_expr(a) and z3.is_expr(b):
            if z3.is_bool(a) and z3.is_int(b):
                a = If(a, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(b) and z3.is_int(a):
                b = If(b, z3.IntVal(1), z3.IntVal(0))
            return a == b
        if a is None and b is None:
            return T
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    # ------------------------------------------------------------ iterators
    def container(self, e, p):
        v = e.read(p)
        if isinstance(v, CStr):
            return v.s, 'str'
        if v.sort() == self.w.Str:
            return v, 'str'
        nm = v.sort().name()
        return v, 'map' if nm.startswith('Map_') else 'vec'

    def begin(self, e, p):
        v, k = self.container(e, p)
        if k == 'map':
            dom = self.w.acc(v, 'dom')
            ks = dom.sort().domain()
            key = e.fresh('key', ks)
            end = e.fresh('end', self.w.Bool)
            q = z3.Const('k?', ks)
            e.fact(Implies(Not(end), z3.Select(dom, key)))
            e.fact(Implies(end, FA(q, Not(z3.Select(dom, q)), z3.Select(dom, q))))
            return MapIter(p, key, end, z3.K(ks, F))
        return VecIter(p, z3.IntVal(0))

    def end(self, e, p):
        v, k = self.container(e, p)
        if k == 'map':
            ks = self.w.acc(v, 'dom').sort().domain()
            return MapIter(p, z3.Const('endkey_%s' % ks.name(), ks), T, None)
        if k == 'str':
            return VecIter(p, self.s.len(v))
        return VecIter(p, self.w.acc(v, 'len'))

    def atend(self, e, it):
        if isinstance(it, MapIter):
            return it.end
        return self.equal(e, it, self.end(e, it.place))

    def iternext(self, e, it):
        if isinstance(it, MapIter):
            if it.vis is None:
                raise Unsupported('advance of a non-begin iterator')
            m = e.read(it.place)
            dom = self.w.acc(m, 'dom')
            if e.mem:
                e.oblige('map iterator advanced within the container', Not(it.end), ('mem',))
            vis = z3.Store(it.vis, it.key, T)
            key = e.fresh('key', it.key.sort())
            end = e.fresh('end', self.w.Bool)
            q = z3.Const('k?', it.key.sort())
            e.fact(Implies(Not(end), And(z3.Select(dom, key), Not(z3.Select(vis, key)))))
            e.fact(Implies(end, FA(q, Implies(z3.Select(dom, q), z3.Select(vis, q)), z3.Select(dom, q))))
            return MapIter(it.place, key, end, vis)
        if isinstance(it, VecIter):
            return VecIter(it.place, it.idx - 1 if it.rev else it.idx + 1, it.rev)
        raise Unsupported('iterator ++')

    def iterderef(self, e, it):
        if isinstance(it, MapIter):
            if e.mem:
                m = e.read(it.place)
                e.oblige('map iterator points at an element', And(Not(it.end), z3.Select(self.w.acc(m, 'dom'), it.key)), ('mem',))
            return it.place.sub(('entry', it.key))
        idx = it.idx
        v, k = self.container(e, it.place)
        if it.rev:
            idx = it.idx - 1
        if e.mem and k == 'vec':
            e.oblige('vector iterator points at an element', And(idx >= 0, idx < self.w.acc(v, 'len')), ('mem',))
        if k == 'str':
            return it.place.sub(('ch', idx))
        return it.place.sub(('ix', idx))

    def havoc(self, e, v, nm):
        return None

    # ------------------------------------------------------------ language hooks
    def indirect(self, e, f, args, n):
        m = self.models.get('$indirect')
        if m:
            return m(e, f, args, n)
        raise Unsupported('indirect call')

    def gvar(self, e, n):
        m = self.models.get('$gvar')
        if m:
            return m(e, n)
        return None

    def param(self, e, p):
        m = self.models.get('$param')
        return m(e, p) if m else None

    def static_decl(self, e, d):
        m = self.models.get('$static')
        if m:
            return m(e, d)
        if e.opts.get('arrays') and d['t'].startswith('A<') and d.get('init'):
            e.st.env[d['id']] = e.ev(d['init'])
            e.st.types[d['id']] = (d['t'], d['n'])
            return
        raise Unsupported('static local')

    def new(self, e, n):
        m = self.models.get('$new ' + n['et'])
        return m(e, n) if m else NotImplemented

    def delete(self, e, v, n):
        m = self.models.get('$delete ' + n['et'])
        return m(e, v, n) if m else NotImplemented

    # ------------------------------------------------------------ constructors
    def ctor(self, e, n):
        t = n['t']
        nm = parse_type(t)[0]
        a = n['args']
        m = self.models.get('$ctor ' + nm)
        if m:
            return m(e, n)
        if t == STR_T:
            real = [x for x in a if x['k'] != 'default' and not (x.get('t') or '').startswith('std::allocator') and not x['k'] == 'defarg']
            if not real:
                return self.w.strlit('')
            if len(real) == 1:
                return self.S(e, e.ev(real[0]))
            vals = [e.ev(x) for x in real]
            if isinstance(vals[0], VecIter) and isinstance(vals[1], VecIter):
                s = e.read(vals[0].place)
                return self.substr(e, self.S(e, s), vals[0].idx, vals[1].idx - vals[0].idx)
            if len(vals) == 2 and isinstance(vals[0], CStr):
                return self.substr(e, vals[0].s, z3.IntVal(0), vals[1])
            if len(vals) >= 2 and z3.is_expr(vals[0]) and vals[0].sort() == self.w.Str:
                return self.substr(e, vals[0], vals[1], vals[2] if len(vals) > 2 else z3.IntVal(NPOS))
            raise Unsupported('string constructor')
        if nm in ('std::vector', 'std::map', 'std::unordered_map'):
            if not a:
                return e.default_value(t)
            v = e.ev(a[0])
            if z3.is_expr(v) and v.sort() == self.w.sort(t):
                return v
            raise Unsupported('container constructor')
        if nm in ('std::pair',):
            if len(a) == 1:
                v = e.ev(a[0])
                if v.sort() == self.w.sort(t):
                    return v
                return self.w.mk(t, self.w.acc(v, 'first'), self.w.acc(v, 'second'))
            if len(a) == 2:
                x, y = e.ev(a[0]), e.ev(a[1])
                return self.w.mk(t, self.S(e, x) if isinstance(x, CStr) else x, self.S(e, y) if isinstance(y, CStr) else y)
            return e.default_value(t)
        if 'iterator' in nm or 'iterator' in t.split('<')[0]:
            if not a:
                return Opaque('uninitialised iterator')
            v = e.ev(a[0])
            if nm.startswith('std::reverse_iterator') and isinstance(v, VecIter):
                return v if v.rev else VecIter(v.place, v.idx, True)
            return v
        if nm == 'std::unique_lock':
            p = e.lv(a[0])
            if isinstance(p, Place) and p.root[0] == 'h' and not p.path:
                lk = LockObj(p.root[1])
                e.acquire(p.root[1])
                return lk
            raise Unsupported('lock of %s' % (p,))
        if nm in ('std::recursive_mutex', 'std::allocator', 'std::locale'):
            return Opaque(nm)
        if t == 'lambda' or t.startswith('lambda') or t.startswith('(lambda'):
            return e.ev(a[0])
        if nm in ('std::atomic', 'efsw::Atomic'):
            if a:
                return e.ev(a[0])
            return e.default_value(parse_type(t)[1][0])
        if t in self.w.extern_recs:
            if n['copy']:
                return e.ev(a[0])
            return e.default_value(t)
        return NotImplemented

    # ------------------------------------------------------------ calls
    def opcall(self, e, n):
        name = base_name(n['fn'])
        i = name.find('operator')
        if i >= 0 and (i == 0 or name[i - 1] == ':') and not n['fn'].startswith('efsw::') and n['fn'] not in e.prog.fns:
            return self.stdop(e, name[i + 8:].strip(), name[:i + 8] + name[i + 8:].split('<')[0] if len(name) > i + 10 else name, n)
        return NotImplemented

    def stdop(self, e, op, name, n):
        a = n['args']
        if op.startswith('<') and n.get('op') in ('<', '<<', '<='):
            op = n['op']
            name = name[:name.find('operator') + 8] + op
        if '<' in op and op not in ('<', '<<', '<=') and not op.startswith('<'):
            op = op.split('<')[0]
        elif op.startswith('<') and len(op) > 2 and op[1] not in '<=':
            op = '<'
        m = self.models.get('$op ' + name)
        if m:
            return m(e, n)
        if 'back_insert_iterator' in n['fn'].split('::operator')[0]:
            o = e.ev(a[0])
            if isinstance(o, Place):
                o = e.read(o)
            if not isinstance(o, BackIns):
                raise Unsupported('back_insert_iterator')
            if op == '=' and 'back_insert_iterator' in n['pt'][0]:
                v = e.ev(a[1])
                p = e.lv(a[0])
                e.write(p, v)
                return p
            if op == '=':
                v = e.ev(a[1])
                self.pushed(e, o.place, e.read(o.place), v)
            return o
        if op == '=':
            v = e.ev(a[1])
            p = e.lv(a[0])
            if isinstance(v, CStr):
                v = v.s
            if 'basic_string' in name and z3.is_expr(v) and z3.is_int(v) and v.sort() != self.w.Str:
                v = self.s.of_char(v)
            e.write(p, v)
            return p
        if op in ('==', '!='):
            x, y = e.ev(a[0]), e.ev(a[1])
            r = self.equal(e, x, y)
            return r if op == '==' else Not(r)
        if op in ('<', '>') and 'basic_string' in ''.join(n['pt'] or []) or (op == '<' and name.startswith('std::operator')):
            x, y = self.S(e, e.ev(a[0])), self.S(e, e.ev(a[1]))
            return self.s.lt(x, y) if op == '<' else self.s.lt(y, x)
        if op in ('<', '>') and 'normal_iterator' in name or name.startswith('__gnu_cxx::operator<'):
            x, y = e.ev(a[0]), e.ev(a[1])
            return x.idx < y.idx if op == '<' else x.idx > y.idx
        if op == '+':
            x, y = e.ev(a[0]), e.ev(a[1])
            if isinstance(x, VecIter):
                return VecIter(x.place, x.idx + y, x.rev)
            return self.s.cat(self.str_or_char(e, x), self.str_or_char(e, y))
        if op == '+=':
            y = e.ev(a[1])
            p = e.lv(a[0])
            if isinstance(e.read(p), VecIter):
                x = e.read(p)
                e.write(p, VecIter(x.place, x.idx + y, x.rev))
            else:
                e.write(p, self.s.cat(e.read(p), self.str_or_char(e, y)))
            return p
        if op == '*':
            v = e.ev(a[0])
            if isinstance(v, (MapIter, VecIter)):
                return self.iterderef(e, v)
        if op == '->':
            v = e.ev(a[0])
            if isinstance(v, (MapIter, VecIter)):
                pl = self.iterderef(e, v)
                # iterator over pointers to objects
                return Ptr(pl)
        if op == '-':
            x, y = e.ev(a[0]), e.ev(a[1])
            if isinstance(x, VecIter) and isinstance(y, VecIter):
                return x.idx - y.idx
            if isinstance(x, VecIter):
                return VecIter(x.place, x.idx - y, x.rev)
        if op in ('++', '--'):
            p = e.lv(a[0])
            v = e.read(p)
            if op == '++':
                nv = VecIter(v.place, v.idx - 1, True) if isinstance(v, VecIter) and v.rev else self.iternext(e, v)
            elif isinstance(v, VecIter):
                nv = VecIter(v.place, v.idx + (1 if v.rev else -1), v.rev)
            else:
                raise Unsupported('-- of map iterator')
            e.write(p, nv)
            return v if len(a) > 1 else p
        if op == '[]':
            p = e.lv(a[0])
            v, k = self.container(e, p)
            i = e.ev(a[1])
            if k == 'map':
                if isinstance(i, CStr):
                    i = i.s
                dom = self.w.acc(v, 'dom')
                had = z3.Select(dom, i)
                vt = parse_type(self.maptype(e, a[0]))[1][1]
                if e.proves(had, timeout=1500):
                    return p.sub(('mv', i))
                dv = e.default_value(vt, True)
                if isinstance(dv, CStr):
                    dv = dv.s
                val = self.w.acc(v, 'val')
                nv = self.w.mk_like(v, z3.Store(dom, i, T), z3.Store(val, i, If(had, z3.Select(val, i), dv)))
                e.write(p, nv)
                return p.sub(('mv', i))
            if k == 'str':
                return p.sub(('ch', i))
            if e.mem:
                e.oblige('vector index in range', And(i >= 0, i < self.w.acc(v, 'len')), ('mem',))
            return p.sub(('ix', i))
        raise Unsupported('operator %s (%s)' % (op, name))

    def maptype(self, e, n):
        t = n.get('t')
        if t and t.startswith('R<'):
            t = t[2:-1]
        return t

    def str_or_char(self, e, x):
        if isinstance(x, Place):
            x = e.read(x)
        if isinstance(x, CStr):
            return x.s
        if z3.is_expr(x) and x.sort() == self.w.Str:
            return x
        return self.s.of_char(x)

    def substr(self, e, s, pos, n):
        if self.s.S:
            L = z3.Length(s)
            return z3.SubString(s, pos, If(Or(n == NPOS, n > L - pos), L - pos, n))
        return self.s._sub(s, pos, n)

    def call(self, e, name, key, this, args, n):
        m = self.models.get(name)
        if m:
            if name not in e.prog.by_name:
                self.used.add(name)
            r = m(e, this, args, n)
            if r is not NotImplemented:
                return r
        if name.startswith('efsw::Atomic::'):
            if name.endswith('operator bool') or name.endswith('load'):
                return e.read(this)
            if name.endswith('operator=') or name.endswith('store'):
                e.write(this, e.read(args[0]) if isinstance(args[0], Place) else args[0])
                return this
        if not (name.startswith('std::') or name.startswith('__gnu') or name in CFUN):
            return NotImplemented
        self.used.add(name.replace('__detail::', ''))
        short_ = name.rsplit('::', 1)[-1]
        if this is not None:
            if isinstance(this, Ptr):
                this = this.place
            if isinstance(this, Place) or z3.is_expr(this):
                return self.method(e, name, short_, this, args, n)
        f = getattr(self, 'c_' + short_, None)
        if f:
            return f(e, args, n)
        raise Unsupported('call to %s' % name)

    # ---- methods of std classes
    def method(self, e, name, m, this, args, n):
        if not isinstance(this, Place):
            this = e.newtmp(this)
        if 'atomic' in name:
            if m == 'load':
                return e.read(this)
            if m == 'store':
                e.write(this, args[0])
                return None
        if 'function' in name or 'thread' in name or 'unique_ptr' in name or 'unique_lock' in name:
            if m in ('unlock', 'lock') and 'unique_lock' in name:
                lk = e.read(this)
                if m == 'unlock':
                    nl = LockObj(lk.name, lk.n)
                    e.release(nl)
                    e.write(this, nl)
                else:
                    nl = LockObj(lk.name)
                    e.acquire(lk.name)
                    e.write(this, nl)
                return None
            raise Unsupported(name)
        if 'mutex' in name:
            if m == 'lock':
                e.acquire(this.root[1])
                return None
            if m == 'unlock':
                e.st.held[this.root[1]] = e.st.held.get(this.root[1], 0) - 1
                return None
        v, k = self.container(e, this)
        w = self.w
        if k == 'str':
            return self.strmethod(e, m, this, v, args, n)
        args = [a for a in args]
        if m in ('begin', 'cbegin'):
            return self.begin(e, this)
        if m in ('end', 'cend'):
            return self.end(e, this)
        if k == 'map':
            dom, val = w.acc(v, 'dom'), w.acc(v, 'val')
            ks = dom.sort().domain()

            def keyof(a):
                if isinstance(a, Place):
                    a = e.read(a)
                return a.s if isinstance(a, CStr) else a
            if m == 'find':
                kk = keyof(args[0])
                return MapIter(this, kk, Not(z3.Select(dom, kk)), None)
            if m == 'count':
                return If(z3.Select(dom, keyof(args[0])), z3.IntVal(1), z3.IntVal(0))
            if m == 'erase':
                a = args[0]
                if isinstance(a, Place):
                    a = e.read(a)
                if isinstance(a, MapIter):
                    if e.mem:
                        e.oblige('erased map iterator points at an element', And(Not(a.end), z3.Select(dom, a.key)), ('mem',))
                    e.write(this, w.upd(v, 'dom', z3.Store(dom, a.key, F)))
                    if a.vis is not None:
                        nd = z3.Store(dom, a.key, F)
                        vis = z3.Store(a.vis, a.key, T)
                        key = e.fresh('key', ks)
                        end = e.fresh('end', w.Bool)
                        q = z3.Const('k?', ks)
                        e.fact(Implies(Not(end), And(z3.Select(nd, key), Not(z3.Select(vis, key)))))
                        e.fact(Implies(end, FA(q, Implies(z3.Select(nd, q), z3.Select(vis, q)), z3.Select(nd, q))))
                        return MapIter(this, key, end, vis)
                    return Opaque('erased')
                kk = keyof(a)
                e.write(this, w.upd(v, 'dom', z3.Store(dom, kk, F)))
                return If(z3.Select(dom, kk), z3.IntVal(1), z3.IntVal(0))
            if m == 'clear':
                e.write(this, w.upd(v, 'dom', z3.K(ks, F)))
                return None
            if m in ('empty', 'size'):
                q = z3.Const('k?', ks)
                if m == 'empty':
                    b = e.fresh('empty', w.Bool)
                    x = e.fresh('some', ks)
                    e.fact(Implies(b, FA(q, Not(z3.Select(dom, q)), z3.Select(dom, q))))
                    e.fact(Implies(Not(b), z3.Select(dom, x)))
                    return b
                r = UF('mapsize_%s' % ks.name(), dom.sort(), w.Int)(dom)
                x = e.fresh('some', ks)
                e.fact(r >= 0)
                e.fact(Implies(r == 0, FA(q, Not(z3.Select(dom, q)), z3.Select(dom, q))))
                e.fact(Implies(r > 0, z3.Select(dom, x)))
                return r
            if m == 'insert' and len(args) == 1:
                p = args[0]
                if isinstance(p, Place):
                    p = e.read(p)
                kk, vv = w.acc(p, 'first'), w.acc(p, 'second')
                had = z3.Select(dom, kk)
                e.write(this, w.mk_like(v, z3.Store(dom, kk, T), z3.Store(val, kk, If(had, z3.Select(val, kk), vv))))
                return Opaque('insert result')
            if m == 'at':
                return this.sub(('mv', keyof(args[0])))
            raise Unsupported('map::' + m)
        ln, data = w.acc(v, 'len'), w.acc(v, 'data')
        if m == 'size':
            return ln
        if m == 'empty':
            return ln == 0
        if m in ('reserve', 'shrink_to_fit'):
            return None
        if m == 'clear':
            e.write(this, w.upd(v, 'len', z3.IntVal(0)))
            return None
        if m in ('push_back', 'emplace_back'):
            x = args[0]
            if isinstance(x, Place):
                x = e.read(x)
            if isinstance(x, CStr):
                x = x.s
            es = data.sort().range()
            if m == 'emplace_back' and (len(args) > 1 or x.sort() != es):
                vals = [e.read(y) if isinstance(y, Place) else y for y in args]
                vals = [y.s if isinstance(y, CStr) else y for y in vals]
                x = es.constructor(0)(*vals)
            self.pushed(e, this, v, x)
            return None
        if m == 'pop_back':
            e.write(this, w.upd(v, 'len', ln - 1))
            return None
        if m in ('front', 'back', 'at'):
            i = z3.IntVal(0) if m == 'front' else (ln - 1 if m == 'back' else args[0])
            if e.mem:
                e.oblige('vector access in range', And(i >= 0, i < ln), ('mem',))
            return this.sub(('ix', i))
        if m == 'rbegin':
            return VecIter(this, ln, True)
        if m == 'rend':
            return VecIter(this, z3.IntVal(0), True)
        if m == 'erase' and len(args) == 1:
            it = args[0]
            if isinstance(it, Place):
                it = e.read(it)
            if e.mem:
                e.oblige('erased vector iterator points at an element', And(it.idx >= 0, it.idx < ln), ('mem',))
            nd = e.fresh('erased', data.sort())
            j = z3.Int('j?')
            e.fact(FA(j, z3.Select(nd, j) == If(j < it.idx, z3.Select(data, j), z3.Select(data, j + 1)), z3.Select(nd, j)))
            # the same fact, triggered from the old array
            if '$erased' not in self.models:
                e.fact(z3.ForAll([j], And(Implies(j < it.idx, z3.Select(nd, j) == z3.Select(data, j)),
                                      Implies(j > it.idx, z3.Select(nd, j - 1) == z3.Select(data, j))), patterns=[z3.Select(data, j)]))
            nv = v.sort().constructor(0)(ln - 1, nd)
            h = self.models.get('$erased')
            if h:
                c = e.fresh('erased', nv.sort())
                e.fact(c == nv)
                nv = c
            e.write(this, nv)
            if h:
                h(e, v, e.read(this), it.idx)
            return VecIter(this, it.idx)
        if m == 'assign' or m == 'insert':
            raise Unsupported('vector::' + m)
        raise Unsupported('vector::' + m)

    def pushed(self, e, this, v, x):
        w = self.w
        ln, data = w.acc(v, 'len'), w.acc(v, 'data')
        if this.root[0] == 'env' or True:
            vk = this.key()
            sk, pk = None, None
            if e.st.cursors:
                cur = e.st.cursors[-1]
                c = cur[0]
                if c is not None:
                    kk = c.key if isinstance(c, MapIter) else c.idx
                    es = kk.sort()
                    sk = ('src', vk, cur[1])
                    pk = ('pos', vk, cur[1])
                    if hasattr(e, 'srcplaces'):
                        e.srcplaces[vk] = this
                    for k_, srt, upd in ((sk, z3.ArraySort(w.Int, es), lambda g: z3.Store(g, ln, kk)), (pk, z3.ArraySort(es, w.Int), lambda g: z3.Store(g, kk, ln))):
                        e.st.env[k_] = upd(e.ghost0(k_, srt))
                    if x.sort().kind() == z3.Z3_DATATYPE_SORT and x.sort().name().startswith('Pair_') and w.fields[x.sort().name()][0] == 'first':
                        f = w.acc(x, 'first')
                        k_ = ('posf', vk, cur[1])
                        e.st.env[k_] = z3.Store(e.ghost0(k_, z3.ArraySort(f.sort(), w.Int)), f, ln)
        nv = v.sort().constructor(0)(ln + 1, z3.Store(data, ln, x))
        h = self.models.get('$pushed')
        if h:
            c = e.fresh('pushed', nv.sort())
            e.fact(c == nv)
            nv = c
        e.write(this, nv)
        if h:
            h(e, v, nv, x)

    # ---- std::string
    def strmethod(self, e, m, this, v, args, n):
        st = self.s
        L = st.len(v)
        args = [e.read(a) if isinstance(a, Place) else a for a in args]
        if m in ('size', 'length'):
            e.fact(And(L >= 0, L < 2**31))
            return L
        if m in ('c_str', 'data'):
            return CStr(F, v)
        if m == 'empty':
            return v == self.w.strlit('')
        if m == 'clear':
            e.write(this, self.w.strlit(''))
            return None
        if m == 'reserve':
            return None
        if m in ('begin', 'cbegin'):
            return VecIter(this, z3.IntVal(0))
        if m in ('end', 'cend'):
            return VecIter(this, L)
        if m == 'at':
            e.oblige('std::string::at index in range', And(args[0] >= 0, args[0] < L), ('mem',))
            return this.sub(('ch', args[0]))
        if m == 'back':
            e.oblige('std::string::back on a non-empty string', L > 0, ('mem',))
            return this.sub(('ch', L - 1))
        if m == 'front':
            return this.sub(('ch', z3.IntVal(0)))
        if m == 'push_back':
            e.write(this, st.cat(v, st.of_char(args[0])))
            return None
        if m == 'append' and len(args) == 1:
            e.write(this, st.cat(v, self.str_or_char(e, args[0])))
            return this
        if m == 'assign' and len(args) == 1:
            e.write(this, self.S(e, args[0]))
            return this
        if m == 'compare' and len(args) == 1:
            o = self.S(e, args[0])
            return If(v == o, z3.IntVal(0), If(st.lt(v, o), z3.IntVal(-1), z3.IntVal(1)))
        if m == 'substr':
            pos = args[0] if args else z3.IntVal(0)
            ln = args[1] if len(args) > 1 else z3.IntVal(NPOS)
            e.fact(And(L >= 0, L < 2**31))
            e.oblige('std::string::substr position in range', And(pos >= 0, pos <= L), ('mem',))
            return self.substr(e, v, pos, ln)
        if m in ('pop_back',):
            e.oblige('std::string::pop_back on a non-empty string', L > 0, ('mem',))
            e.write(this, self.substr(e, v, z3.IntVal(0), L - 1))
            return None
        if m == 'erase':
            e.fact(And(L >= 0, L < 2**31))
            if st.S and args and isinstance(args[0], VecIter):
                i = args[0].idx
                k = 1 if len(args) == 1 else args[1].idx - i
                e.oblige('std::string::erase position in range', And(i >= 0, i <= L), ('mem',))
                e.write(this, z3.Concat(z3.SubString(v, 0, i), z3.SubString(v, i + k, L - i - k)))
                return VecIter(this, i)
            pos = args[0] if args else z3.IntVal(0)
            k = args[1] if len(args) > 1 else z3.IntVal(NPOS)
            e.oblige('std::string::erase position in range', And(pos >= 0, pos <= L), ('mem',))
            if st.S:
                k2 = If(Or(k == NPOS, k > L - pos), L - pos, k)
                e.write(this, z3.Concat(z3.SubString(v, 0, pos), z3.SubString(v, pos + k2, L - pos - k2)))
                return this
            raise Unsupported('string erase')
        if m == 'resize' and st.S:
            e.fact(And(L >= 0, L < 2**31))
            k = args[0]
            if e.proves(k <= L):
                e.write(this, z3.SubString(v, 0, k))
                return None
            raise Unsupported('growing resize')
        if m in ('find_last_of', 'rfind', 'find', 'find_first_of') and st.S:
            a = args[0]
            s1 = a.s if isinstance(a, CStr) else (a if z3.is_expr(a) and a.sort() == self.w.Str else st.of_char(a))
            if len(args) > 1 and not (z3.is_int_value(args[1]) and args[1].as_long() == (NPOS if m in ('find_last_of', 'rfind') else 0)):
                raise Unsupported('string search from a position')
            one = z3.simplify(z3.Length(s1) == 1)
            if not z3.is_true(one) and m in ('find_last_of', 'find_first_of') and not (z3.is_expr(a) and z3.is_int(a)):
                raise Unsupported('search of a character class')
            e.fact(And(L >= 0, L < 2**31))
            r = e.fresh('found', self.w.Int)
            ls = z3.IntVal(1) if z3.is_true(one) or (z3.is_expr(a) and a.sort() != self.w.Str) else z3.Length(s1)
            if m in ('find_last_of', 'rfind'):
                rest = z3.Not(z3.Contains(z3.SubString(v, r + 1, L - r - 1), s1))
            else:
                rest = z3.Not(z3.Contains(z3.SubString(v, 0, r + ls - 1), s1))
            e.fact(Or(And(r == NPOS, Not(z3.Contains(v, s1))),
                      And(r >= 0, r + ls <= L, z3.SubString(v, r, ls) == s1, rest)))
            # split form helps the sequence solver
            e.fact(Implies(r != NPOS, v == z3.Concat(z3.SubString(v, 0, r), s1, z3.SubString(v, r + ls, L - r - ls))))
            return r
        f = self.models.get('str::' + m)
        if f:
            return f(e, this, v, args, n)
        raise Unsupported('string::' + m)

    # ---- free functions
    def c_make_pair(self, e, args, n):
        vals = [e.read(a) if isinstance(a, Place) else a for a in args]
        vals = [a.s if isinstance(a, CStr) else a for a in vals]
        return self.w.mk(n['t'], *vals)

    def c_move(self, e, args, n):
        return args[0]

    def c_strcmp(self, e, args, n):
        a, b = args
        r = e.fresh('strcmp', self.w.Int)
        e.fact((r == 0) == (a.s == b.s))
        return r

    def c_strlen(self, e, args, n):
        return self.s.len(args[0].s)

    def c_strerror(self, e, args, n):
        return CStr(F, UF('strerror', self.w.Int, self.w.Str)(args[0]))

    def c_free(self, e, args, n):
        return None

    def c_find(self, e, args, n):
        b, en, x = args
        b = e.read(b) if isinstance(b, Place) else b
        en = e.read(en) if isinstance(en, Place) else en
        x = e.read(x) if isinstance(x, Place) else x
        v = e.read(b.place)
        return self._find(e, b, en, lambda j: z3.Select(self.w.acc(v, 'data'), j) == x)

    def c_find_if(self, e, args, n):
        b, en, f = [e.read(a) if isinstance(a, Place) else a for a in args]
        if not isinstance(f, Lam) or not isinstance(b, VecIter):
            raise Unsupported('find_if')
        j = e.fresh('j', self.w.Int)
        try:
            P = e.pure_eval(lambda: e.tobool(e.read(e.calllam(f, [b.place.sub(('ix', j))]))))
        except Exception as x:
            if x.__class__.__name__ in ('NotPure', 'PathEnd'):
                raise Unsupported('find_if predicate with effects')
            raise
        return self._find(e, b, en, lambda q: z3.substitute(P, (j, q)))

    def _find(self, e, b, en, P):
        r = e.fresh('found', self.w.Int)
        q = z3.Int('j?')
        data = self.w.acc(e.read(b.place), 'data')
        e.fact(And(r >= b.idx, r <= en.idx))
        e.fact(Implies(r < en.idx, P(r)))
        e.fact(FA(q, Implies(And(q >= b.idx, q < r), Not(P(q))), z3.Select(data, q)))
        return VecIter(b.place, r)


CFUN = {'strcmp', 'strlen', 'strerror', 'free'}
