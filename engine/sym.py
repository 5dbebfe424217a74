"""Abstract interpreter over the exported IR.

A state is a set of concrete states described by
  * a store of equalities and polyhedral inequalities over symbols,
  * integer values as polynomials (modulo the type's width, normalised on use),
  * memory cells, and digit containers (size, value, known digits).
Loops are summarised by inductive facts: conserved polynomial quantities found
by linear algebra over the loop's paths, and inequalities kept only if every
path of the body preserves them.
"""
import struct
from collections import namedtuple
from fractions import Fraction
import os
from lin import *
from ir import *

SIZEMAX = (1 << 58) - 1

Ptr = namedtuple('Ptr', 'obj off')
EPtr = namedtuple('EPtr', 'c idx sub')
PInt = namedtuple('PInt', 'ptr')
Agg = namedtuple('Agg', 'items')


class _K:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NULL = _K('null')
UNDEF = _K('undef')

Cont = namedtuple('Cont', 'kind M esize size V base of ou bl zf dm wf tag ver elems')


def to_float(v):
    return struct.unpack('f', struct.pack('f', v))[0]


class FV:
    """symbolic floating-point value"""
    __slots__ = ('op', 'args', '_h')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, FV) and self._h == o._h and self.op == o.op and self.args == o.args

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class State:
    __slots__ = ('store', 'regs', 'mem', 'conts', 'path', 'inx', 'events', 'objs', 'exc', 'tags')

    def copy(self):
        s = State()
        s.store = self.store.copy()
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.conts = dict(self.conts)
        s.path = self.path
        s.inx = self.inx
        s.events = self.events
        s.objs = self.objs
        s.exc = self.exc
        s.tags = self.tags
        return s


def new_state(radix):
    s = State()
    s.store = Store(radix)
    s.regs, s.mem, s.conts = {}, {}, {}
    s.path, s.inx, s.events, s.objs, s.exc, s.tags = (), frozenset(), (), 0, None, ()
    return s


class Ob:
    """one proof obligation at one site (all states reaching it)"""
    __slots__ = ('kind', 'site', 'text', 'ok', 'bad', 'n', 'fn')

    def __init__(self, kind, site, text, fn):
        self.kind, self.site, self.text, self.fn = kind, site, text, fn
        self.ok, self.bad, self.n = True, [], 0


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


DIGITS = {
    'unsigned char': (255, 1), 'unsigned short': (65535, 2), 'unsigned int': ((1 << 32) - 1, 4),
}


def elem_info(t):
    """(kind, max digit, element size) from the first template argument"""
    t = t.strip()
    if t in DIGITS:
        return ('digit',) + DIGITS[t]
    m = t.startswith('BNIntType<')
    if m:
        inner = t[len('BNIntType<'):-1]
        base, rad = inner.rsplit(',', 1)
        rad = int(rad.strip().rstrip('ul'))
        sz = {'unsigned char': 1, 'unsigned short': 2, 'unsigned int': 4, 'unsigned long': 8}[base.strip()]
        return ('digit', rad - 1, sz)
    if t in ('double', 'float'):
        return ('fp', None, 8 if t == 'double' else 4)
    if t.startswith('std::complex<double>'):
        return ('cx', None, 16)
    if t.startswith('std::complex<float>'):
        return ('cx', None, 8)
    return ('other', None, {'unsigned long': 8, 'long': 8, 'double': 8, 'int': 4, 'float': 4, 'bool': 1, 'char': 1}.get(t))


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# kinds of obligations only some properties ask for: 'overflow', 'rank'
WATCH = set()
LOOPHOOKS = []


class Engine:
    def __init__(self, prog, radix, contracts=None, exc=False, budget=200000):
        self.P = prog
        self.R = radix
        self.contracts = contracts or {}
        self.exc = exc
        self.rec = True
        self.obs = {}
        self.depth = 0
        self.steps = 0
        self.budget = budget
        self.peel = 0
        self.peelwidth = 96
        self.cutoff = False
        self.classes = False
        self.loopdepth = 0
        self.loops_seen = {}
        self.calls_seen = set()
        self.fns_seen = set()
        self.forbid = frozenset()     # path signatures assumed infeasible
        self.loopinfo = []
        self.hooks = {}
        self.trace = False
        self.loophooks = list(LOOPHOOKS)
        self.computed = set()
        self.fnstack, self.locstack, self.curloc, self.sigstack = [], [], None, []
        self.maxstates = 4000
        self.noterm = []
        self.onloop = None
        self.stop_on_inner = False
        self.extra_basis = []
        self.outer = []
        self.optimistic = False
        import vec
        self.vec = vec

    # ---------------------------------------------------------------- util
    def oblig(self, kind, st, p, inst, text, fr=None):
        """record the obligation p >= 0 (or p True/False)"""
        ok = p if isinstance(p, bool) else st.store.prove(p)
        if self.rec:
            loc = tuple(inst.get('loc') or self.curloc or ('?', 0, 0)) if inst is not None else ('?', 0, 0)
            if not (loc[0].startswith(self.P.repo)) and self.locstack:
                for l in reversed(self.locstack):
                    if l and l[0].startswith(self.P.repo):
                        loc = l
                        break
            key = (kind, loc, text)
            o = self.obs.get(key)
            if o is None:
                o = self.obs[key] = Ob(kind, loc, text, self.fnstack[-1].dem if self.fnstack else '')
            o.n += 1
            if not ok:
                o.ok = False
                if len(o.bad) < 6:
                    o.bad.append((st.copy(), p))
        if not ok and not isinstance(p, bool) and not (self.peel and kind == 'digit-range'):
            st.store.add_ge(p)
        return ok

    def no_overflow(self, st, op, a, b, w, inst):
        """obligation: the signed operation fits"""
        half = 1 << (w - 1)
        for s1, p in self.snorm(st.copy(), a, w):
            for s2, q in self.snorm(s1, b, w):
                if s2.store.dead:
                    continue
                r = s2.store.canon(p + q if op == 'add' else p - q if op == 'sub' else s2.store.canon(p) * s2.store.canon(q))
                for g in (C(half - 1) - r, r + half):
                    self.oblig('overflow', s2, g, inst, 'the signed %s does not overflow' % {'add': 'addition', 'sub': 'subtraction', 'mul': 'multiplication'}[op])

    def signature(self, st, args):
        """all a function can see of its arguments, or None"""
        S = st.store
        out = []
        for a in args:
            if isinstance(a, Poly):
                out.append(S.canon(a))
            elif isinstance(a, FV):
                out.append(a)
            elif isinstance(a, Ptr):
                if a.obj[0] == 'g':
                    out.append(a)
                    continue
                ks = [k for k in st.conts if k[0] == a.obj]
                ms = [k for k in st.mem if k[0] == a.obj]
                if not ks and not ms:
                    out.append('new')
                for k in sorted(ks, key=repr):
                    c = st.conts[k]
                    if c.V is None and c.elems is None and S.canon(c.size) != ZERO:
                        return None
                    out.append((k[1], c.kind, S.canon(c.size), None if c.V is None else S.canon(c.V), c.elems if S.canon(c.size) != ZERO else None))
                for k in sorted(ms, key=repr):
                    v, n = st.mem[k]
                    out.append((k[1], n, S.canon(v) if isinstance(v, Poly) else v))
            else:
                return None
        return out

    def inexact(self, st, why):
        st.inx = st.inx | {why}

    def fork(self, st, p):
        """[(state, bool)] for p >= 0 / p <= -1"""
        S = st.store
        if S.prove(p):
            return [(st, True)]
        if S.prove(-p - 1):
            return [(st, False)]
        t = st.copy()
        t.store.add_ge(p)
        st.store.add_ge(-p - 1)
        return [(x, b) for x, b in ((t, True), (st, False)) if not x.store.dead]

    def fork_eq(self, st, p):
        """[(state, bool)] for p == 0 / p != 0"""
        p = st.store.canon(p)
        if p.is_const():
            return [(st, p.cval() == 0)]
        out = []
        for s, ge in self.fork(st, p):
            if not ge:
                out.append((s, False))
                continue
            for s2, le in self.fork(s, -p):
                if le:
                    if not s2.store.prove_eq(p) or True:
                        s2.store.add_eq(p)
                    if not s2.store.dead:
                        out.append((s2, True))
                else:
                    out.append((s2, False))
        return out

    def norm(self, st, p, w):
        """unsigned representative in [0, 2^w): [(state, poly)]"""
        p = st.store.canon(p)
        mod = 1 << w
        if p.is_const():
            return [(st, C(p.cval() % mod))]
        S = st.store
        lo, hi = S.prove(p), S.prove(C(mod - 1) - p)
        if lo and hi:
            return [(st, p)]
        if all(not isinstance(c, Fraction) for c in p.t.values()):
            # multiples of the modulus do not matter
            q = Poly({m: (c % mod if not m else c) for m, c in p.t.items() if c % mod})
            if q != p:
                if q.is_const():
                    return [(st, q)]
                p = q
                lo, hi = S.prove(p), S.prove(C(mod - 1) - p)
                if lo and hi:
                    return [(st, p)]
        out = []
        ks = []
        lo1 = lo or S.prove(p + mod)
        hi1 = hi or S.prove(C(3 * mod - 1) - p)
        if lo1 and hi1:
            for k in ((-1,) if not lo else ()) + (0,) + ((1, 2) if not hi else ()):
                t = st.copy()
                t.store.add_ge(p - k * mod)
                if t.store.dead:
                    continue
                t.store.add_ge(C((k + 1) * mod - 1) - p)
                if t.store.dead or t.store.prove(C(-1)):
                    continue
                if S.prove(C(k * mod - 1) - p) or S.prove(p - (k + 1) * mod):
                    continue
                out.append((t, p - k * mod))
            return out
        # wide range: fresh quotient
        memo = ('norm', p, w)
        q = fresh('q', 'i', None if not lo1 else -1, None)
        r = fresh('r', 'i', 0, mod - 1)
        st.store.add_eq(p - Poly.sym(q) * mod - Poly.sym(r))
        return [(st, Poly.sym(r))] if not st.store.dead else []

    def snorm(self, st, p, w):
        """signed representative"""
        p = st.store.canon(p)
        mod, half = 1 << w, 1 << (w - 1)
        if p.is_const():
            v = p.cval() % mod
            return [(st, C(v - mod if v >= half else v))]
        S = st.store
        if S.prove(p + half) and S.prove(C(half - 1) - p):
            return [(st, p)]
        out = []
        for s, u in self.norm(st, p, w):
            for s2, big in self.fork(s, u - half):
                out.append((s2, u - mod if big else u))
        return out

    def udivrem(self, st, a, b, inst, signed=False):
        """[(state, q, r)] for unsigned polynomials a, b"""
        S = st.store
        a, b = S.canon(a), S.canon(b)
        if a.is_const() and b.is_const() and b.cval() > 0:
            return [(st, C(a.cval() // b.cval()), C(a.cval() % b.cval()))]
        if S.prove(b - a - 1):
            return [(st, ZERO, a)]
        if b.is_const() and b.cval() > 0:
            n = b.cval()
            if n == 1:
                return [(st, a, ZERO)]
            if all(c % n == 0 for c in a.t.values() if not isinstance(c, Fraction)) and not any(isinstance(c, Fraction) for c in a.t.values()):
                return [(st, Poly({m: c // n for m, c in a.t.items()}), ZERO)]
            if S.prove(a - n) and S.prove(C(2 * n - 1) - a):
                return [(st, ONE, a - n)]
            key = ('div', a, n)
            hit = dict(st.tags).get(key)
            if hit:
                q, r = hit
                return [(st, S.canon(q), S.canon(a - q * n))]
            hiq = None
            for cand in (1, (1 << 8) - 1, (1 << 16) - 1, (1 << 32) - 1, n - 1):
                if S.prove(C((cand + 1) * n - 1) - a):
                    hiq = cand if hiq is None else min(hiq, cand)
            q = Poly.sym(fresh('q', 'i', 0, hiq))
            S.add_ge(a - q * n)
            S.add_ge(q * n + (n - 1) - a)
            st.tags = st.tags + ((key, (q, None)),)
            return [(st, q, a - q * n)]
        q = Poly.sym(fresh('q', 'i', 0, None))
        r = Poly.sym(fresh('r', 'i', 0, None))
        S.add_eq(a - q * b - r)
        S.add_ge(b - r - 1)
        return [(st, S.canon(q), S.canon(r))]

    # ---------------------------------------------------------------- operands
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            return st.regs.get(o[1], UNDEF)
        if k == 'i':
            return C(int(o[1]))
        if k == 'n':
            return NULL
        if k == 'g':
            return Ptr(('g', o[1]), o[2])
        if k == 'f':
            return FV('const', float.fromhex(o[1]) if not o[1] in ('inf', '-inf', 'nan') else float(o[1]))
        if k == 'z':
            return C(0) if type_bits(o[1]) else UNDEF
        return UNDEF

    def as_int(self, st, v, ty='i64'):
        if isinstance(v, Poly):
            return v
        self.inexact(st, 'opaque integer')
        w = type_bits(ty) or 64
        return Poly.sym(fresh('opaque', 'i', 0, (1 << w) - 1))

    # ---------------------------------------------------------------- memory
    def load(self, st, p, size, ty, inst):
        """[(state, value)]"""
        w = type_bits(ty)
        if isinstance(p, EPtr):
            return self.vec.elem_load(self, st, p, size, ty, inst)
        if isinstance(p, Ptr):
            if p.obj[0] == 'g':
                return [(st, self.gload(st, p, size, ty))]
            key = (p.obj, p.off)
            if key in st.mem:
                v, sz = st.mem[key]
                if sz == size:
                    return [(st, v)]
                if isinstance(v, Poly) and v.is_const() and sz < size and v == ZERO:
                    tot = all(st.mem.get((p.obj, p.off + i), (ZERO, 1))[0] == ZERO for i in range(1, size))
                    if tot:
                        return [(st, ZERO)]
            v = self.fresh_of(ty, 'mem')
            self.inexact(st, 'load of untracked memory')
            st.mem[key] = (v, size)
            return [(st, v)]
        self.inexact(st, 'load through unknown pointer')
        return [(st, self.fresh_of(ty, 'mem'))]

    def fresh_of(self, ty, name):
        w = type_bits(ty)
        if w:
            return Poly.sym(fresh(name, 'i', 0, (1 << w) - 1))
        if ty in ('double', 'float'):
            return FV('opaque', fresh('fp').id)
        return UNDEF

    def gload(self, st, p, size, ty):
        g = self.P.globals.get(p.obj[1])
        if g and g['const'] and 'init' in g:
            for off, kind, *rest in [tuple(x) for x in g['init']]:
                if kind == 'val' and off == p.off:
                    v = self.val(st, rest[0])
                    return v
                if kind == 'zero' and off <= p.off < off + rest[0]:
                    return ZERO if type_bits(ty) else NULL
                if kind == 'str' and off <= p.off < off + len(rest[0]) and size == 1:
                    return C(ord(rest[0][p.off - off]) & 255)
        v = ('gval', p.obj[1], p.off, ty)
        self.inexact(st, 'load of a mutable global')
        return self.fresh_of(ty, 'glob')

    def store_mem(self, st, p, v, size, inst):
        if isinstance(p, EPtr):
            return self.vec.elem_store(self, st, p, v, size, inst)
        if isinstance(p, Ptr):
            if p.obj[0] == 'g':
                st.events = st.events + (('gstore', p.obj[1], tuple(inst.get('loc') or ())),)
                return [st]
            for k in list(st.mem):
                if k[0] == p.obj and k[1] != p.off and k[1] < p.off + size and p.off < k[1] + st.mem[k][1]:
                    del st.mem[k]
            st.mem[(p.obj, p.off)] = (v, size)
            st.events = st.events + (('w', p.obj, p.off),) if p.obj[0] == 'arg' else st.events
            return [st]
        self.inexact(st, 'store through unknown pointer')
        return [st]

    # ---------------------------------------------------------------- pointers
    def gep(self, st, base, off, var, inst):
        """[(state, ptr)]"""
        vs = []
        for o, scale, ty in var:
            v = self.val(st, o)
            vs.append((v, scale, type_bits(ty) or 64))
        if isinstance(base, EPtr):
            es = st.conts[base.c].esize if base.c in st.conts else None
            if es is None:
                self.inexact(st, 'pointer into unknown element type')
                return [(st, UNDEF)]
            idx, sub = base.idx, base.sub + off
            states = [(st, idx)]
            for v, scale, w in vs:
                if scale % es:
                    self.inexact(st, 'odd pointer scale')
                    return [(st, UNDEF)]
                nxt = []
                for s, i in states:
                    for s2, sv in self.snorm(s, self.as_int(s, v), w):
                        nxt.append((s2, i + sv * (scale // es)))
                states = nxt
            out = []
            for s, i in states:
                k, sub2 = divmod(sub, es)
                out.append((s, EPtr(base.c, s.store.canon(i + k), sub2)))
            return out
        if isinstance(base, Ptr):
            tot = C(off)
            for v, scale, w in vs:
                tot = tot + self.as_int(st, v) * scale
            tot = st.store.canon(tot)
            if tot.is_const():
                o = base.off + tot.cval()
                return [(st, Ptr(base.obj, o))]
            # enumerate small table indices
            if len(vs) == 1:
                v, scale, w = vs[0]
                out = []
                cur = st
                v = self.as_int(st, v)
                for k in range(0, 8):
                    if cur is None:
                        break
                    r = self.fork_eq(cur, v - k)
                    cur = None
                    rest = []
                    for s, b in r:
                        if b:
                            out.append((s, Ptr(base.obj, base.off + off + k * scale)))
                        else:
                            rest.append(s)
                    if len(rest) == 1:
                        cur = rest[0]
                    elif rest:
                        for s in rest:
                            self.inexact(s, 'symbolic index into a table')
                            out.append((s, UNDEF))
                        cur = None
                if cur is not None:
                    self.inexact(cur, 'symbolic index into a table')
                    out.append((cur, UNDEF))
                return out
            self.inexact(st, 'symbolic pointer offset')
            return [(st, UNDEF)]
        if base is NULL or base is UNDEF:
            self.inexact(st, 'arithmetic on unknown pointer')
        return [(st, UNDEF)]

    # ---------------------------------------------------------------- compare
    def catches(self, st, exc, ti):
        """[(state, bool)]: a handler for type ti takes the exception"""
        if ti is None:
            return [(st, True)]
        if exc and exc[0] == 'new':
            n = exc[1]
            if n == ti:
                return [(st, True)]
            std = n.startswith('_ZTISt') or n.startswith('_ZTIN') and 'BN' in n or n.startswith(('_ZTI5BNNaN', '_ZTI11BNUnderflow'))
            if ti == '_ZTISt9exception' and std:
                return [(st, True)]
            if ti.startswith('_ZTISt') and ti != '_ZTISt9exception' and std:
                self.inexact(st, 'exception types')
                return [(st, True), (st.copy(), False)]
            return [(st, False)]
        if exc and exc[0] == 'exc':
            if ti == '_ZTISt9exception':
                return [(st, True)]
            if ti in ('_ZTISt9bad_alloc', '_ZTISt12length_error', '_ZTISt11logic_error'):
                # the exception may be any standard one
                known = dict(t for t in st.tags if t[0] == 'exctype').get('exctype')
                if known is not None:
                    return [(st, known == ti)]
                t = st.copy()
                st.tags = st.tags + (('exctype', ti),)
                st.path = st.path + (('exception', ti, True),)
                return [(st, True), (t, False)]
            return [(st, False)]
        self.inexact(st, 'exception types')
        return [(st, True), (st.copy(), False)]

    def icmp(self, st, pred, a, b, ty):
        w = type_bits(ty)
        if w and isinstance(a, tuple) and a and a[0] == 'tid':
            a, b = b, a
        if w and pred in ('eq', 'ne') and isinstance(a, tuple) and a and a[0] == 'sel' and isinstance(b, tuple) and b and b[0] == 'tid':
            return [(s, C(int(t == (pred == 'eq')))) for s, t in self.catches(st, a[1], b[1])]
        if w:
            a, b = self.as_int(st, a, ty), self.as_int(st, b, ty)
            out = []
            nf = self.snorm if pred[0] == 's' else self.norm
            for s1, x in nf(st, a, w):
                for s2, y in nf(s1, b, w):
                    x2 = s2.store.canon(x)
                    out += self.cmp_poly(s2, pred, x2, y)
            return out
        # pointers
        if isinstance(a, EPtr) and isinstance(b, EPtr) and a.c == b.c:
            return self.cmp_poly(st, pred, a.idx, b.idx)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return self.cmp_poly(st, pred, C(a.off), C(b.off))
            if pred in ('eq', 'ne'):
                return [(st, C(int(pred == 'ne')))]
        if (a is NULL) != (b is NULL) and pred in ('eq', 'ne') and not (a is UNDEF or b is UNDEF):
            return [(st, C(int(pred == 'ne')))]
        if a is NULL and b is NULL:
            return [(st, C(int(pred in ('eq', 'uge', 'ule'))))]
        self.inexact(st, 'comparison of unknown pointers')
        t = st.copy()
        return [(st, ZERO), (t, ONE)]

    def cmp_poly(self, st, pred, a, b):
        if pred == 'eq' or pred == 'ne':
            return [(s, C(int(t == (pred == 'eq')))) for s, t in self.fork_eq(st, a - b)]
        p = {'ugt': a - b - 1, 'sgt': a - b - 1, 'uge': a - b, 'sge': a - b,
             'ult': b - a - 1, 'slt': b - a - 1, 'ule': b - a, 'sle': b - a}[pred]
        return [(s, C(int(t))) for s, t in self.fork(st, p)]

    def truth(self, st, v):
        """[(state, bool)] of an i1 value"""
        if isinstance(v, Poly):
            v = st.store.canon(v)
            if v.is_const():
                return [(st, bool(v.cval() & 1))]
            return [(s, not t) for s, t in self.fork_eq(st, v)]
        self.inexact(st, 'unknown condition')
        t = st.copy()
        return [(st, False), (t, True)]

    # ---------------------------------------------------------------- running
    def call_fn(self, F, args, st, inst=None):
        """[(state, 'ret'|'exc', value)]"""
        self.fns_seen.add(F.name)
        if self.depth > 40:
            raise Budget('call depth')
        if F in self.fnstack and F.q.base not in self.hooks and not self.peel:
            self.inexact(st, 'recursion into %s' % F.q.base)
            raise Unsupported('recursion of %s' % F.q.base)
        sig = None
        if 'rank' in WATCH and self.peel:
            sig = self.signature(st, args)
            for G, h in zip(self.fnstack, self.sigstack):
                if G is F and h is not None and h == sig:
                    self.oblig('rank', st, False, inst, 'the recursion makes progress')
                    return []
        saved = st.regs
        st.regs = {i: a for i, a in enumerate(args)}
        self.depth += 1
        st.objs += 1
        frame = (F.name, self.depth, 0)
        self.fnstack.append(F)
        self.sigstack.append(sig)
        self.locstack.append(tuple(inst.get('loc') or ()) if inst else None)
        try:
            items = self.run_region(F, 0, st, None, None, frame)
        finally:
            self.depth -= 1
            self.fnstack.pop()
            self.sigstack.pop()
            self.locstack.pop()
        out = []
        for it in items:
            kind, s = it[0], it[1]
            s.regs = dict(saved)
            # drop the callee's objects
            for k in [k for k in s.mem if k[0][0] == 'a' and k[0][1] == frame]:
                del s.mem[k]
            for k in [k for k in s.conts if k[0][0] == 'a' and k[0][1] == frame]:
                del s.conts[k]
            out.append((s, kind, it[2]))
        return out

    def run_region_from_header(self, F, h, st, loop, frame):
        return self.run_region(F, h, st, loop, h, frame)

    def run_region(self, F, block, st, loop, header, frame):
        """run from block until return/throw (loop None) or until leaving the
        loop.  Items: ('ret',st,v) ('exc',st,v) ('back',st,prev) ('exit',st,prev,block)"""
        L = loops(F)
        work = [(block, None, st, True)]
        out = []
        while work:
            b, prev, s, first = work.pop()
            if s.store.dead:
                continue
            if not first:
                if loop is not None:
                    if b == header:
                        self.eval_phis(F, b, prev, s)
                        for s2 in norm_head(self, s, F, b):
                            if not s2.store.dead:
                                out.append(('back', s2, prev))
                        continue
                    if b not in loop:
                        out.append(('exit', s, prev, b))
                        continue
                if b in L:
                    self.eval_phis(F, b, prev, s)
                    for it in self.run_loop(F, b, s, frame):
                        if it[0] == 'exit':
                            work.append((it[3], it[2], it[1], False))
                        else:
                            out.append(it)
                    continue
                self.eval_phis(F, b, prev, s)
            elif b in L and loop is None and b == 0:
                for it in self.run_loop(F, b, s, frame):
                    if it[0] == 'exit':
                        work.append((it[3], it[2], it[1], False))
                    else:
                        out.append(it)
                continue
            self.run_block(F, b, s, work, out, frame)
            if len(work) + len(out) > self.maxstates:
                raise Budget('too many states')
        return out

    def eval_phis(self, F, b, prev, s):
        new = {}
        for x in F.blocks[b]:
            if x['op'] != 'phi':
                break
            for p, o in x['inc']:
                if p == prev:
                    new[x['id']] = self.val(s, o)
                    break
        s.regs.update(new)

    def run_block(self, F, b, st, work, out, frame):
        insts = F.blocks[b]
        cur = [(0, st)]
        while cur:
            i, s = cur.pop()
            while True:
                x = insts[i]
                op = x['op']
                if op == 'phi':
                    i += 1
                    continue
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('steps')
                if x.get('loc'):
                    self.curloc = tuple(x['loc'])
                if op == 'br':
                    if len(x['succ']) == 1:
                        work.append((x['succ'][0], b, s, False))
                    else:
                        for s2, t in self.truth(s, self.val(s, x['ops'][0])):
                            if x['succ'][0] != x['succ'][1]:
                                sig = (F.name, b, t)
                                s2.path = s2.path + (sig,)
                            work.append((x['succ'][0 if t else 1], b, s2, False))
                    break
                if op == 'switch':
                    v = self.val(s, x['ops'][0])
                    v = self.as_int(s, v)
                    rest = [s]
                    w = int(x['ops'][0][2]) if x['ops'][0][0] == 'i' else 32
                    for cv, tb in x['cases']:
                        nrest = []
                        for r in rest:
                            for s2, t in self.fork_eq(r, v - int(cv[1])):
                                if t:
                                    s2.path = s2.path + ((F.name, b, ('case', cv[1])),)
                                    work.append((tb, b, s2, False))
                                else:
                                    nrest.append(s2)
                        rest = nrest
                    for r in rest:
                        r.path = r.path + ((F.name, b, 'default'),)
                        work.append((x['default'], b, r, False))
                    break
                if op == 'ret':
                    out.append(('ret', s, self.val(s, x['ops'][0]) if x['ops'] else None))
                    break
                if op == 'unreachable':
                    if s.exc is None:
                        # reaching it is undefined; treated as terminal
                        out.append(('unreach', s, None))
                    break
                if op == 'resume':
                    out.append(('exc', s, s.exc))
                    break
                if op in ('call', 'invoke'):
                    rs = self.call(F, x, s, frame)
                    conts = []
                    for s2, kind, v in rs:
                        if s2.store.dead:
                            continue
                        if kind == 'ret':
                            if 'ty' in x:
                                s2.regs[x['id']] = v
                            conts.append(s2)
                        elif kind == 'exc':
                            if op == 'invoke':
                                s2.exc = v
                                work.append((x['unwind'], b, s2, False))
                            else:
                                out.append(('exc', s2, v))
                        else:
                            out.append((kind, s2, v))
                    if op == 'invoke':
                        for s2 in conts:
                            work.append((x['normal'], b, s2, False))
                        break
                    if not conts:
                        break
                    for s2 in conts[1:]:
                        cur.append((i + 1, s2))
                    s = conts[0]
                    i += 1
                    continue
                rs = self.step(F, x, s, frame)
                if not rs:
                    break
                for s2, v in rs[1:]:
                    if 'ty' in x:
                        s2.regs[x['id']] = v
                    cur.append((i + 1, s2))
                s, v = rs[0]
                if 'ty' in x:
                    s.regs[x['id']] = v
                i += 1

    # ---------------------------------------------------------------- instructions
    def step(self, F, x, st, frame):
        op = x['op']
        ops = x['ops']
        ty = x.get('ty')
        w = type_bits(ty)
        V = lambda k: self.val(st, ops[k])
        if op == 'alloca':
            obj = ('a', frame, x['id'])
            for k in [k for k in st.mem if k[0] == obj]:
                del st.mem[k]
            for k in [k for k in st.conts if k[0] == obj]:
                del st.conts[k]
            return [(st, Ptr(obj, 0))]
        if op == 'load':
            return self.load(st, V(0), x['msize'], x['mty'], x)
        if op == 'store':
            return [(s, None) for s in self.store_mem(st, V(1), V(0), x['msize'], x)]
        if op == 'getelementptr':
            if 'off' not in x:
                self.inexact(st, 'gep')
                return [(st, UNDEF)]
            return self.gep(st, V(0), x['off'], x['var'], x)
        if op in ('add', 'sub', 'mul'):
            a, b = V(0), V(1)
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                pa, pb = a.ptr, b.ptr
                if isinstance(pa, EPtr) and isinstance(pb, EPtr) and pa.c == pb.c:
                    es = st.conts[pa.c].esize
                    return [(st, (pa.idx - pb.idx) * es)]
                if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.obj == pb.obj:
                    return [(st, C(pa.off - pb.off))]
                self.inexact(st, 'pointer difference')
            a, b = self.as_int(st, a, ty), self.as_int(st, b, ty)
            if op == 'mul':
                rs = []
                if a.is_const() or b.is_const():
                    rs = [(st, a * b)]
                else:
                    for s1, p in self.norm(st, a, w):
                        for s2, q in self.norm(s1, b, w):
                            rs.append((s2, s2.store.canon(p) * s2.store.canon(q)))
            else:
                rs = [(st, a + b if op == 'add' else a - b)]
            if x.get('nsw') and 'overflow' in WATCH:
                self.no_overflow(st, op, a, b, w, x)
            return [(s, s.store.canon(v)) for s, v in rs]
        if op in ('udiv', 'urem'):
            out = []
            for s1, a in self.norm(st, self.as_int(st, V(0), ty), w):
                for s2, b in self.norm(s1, self.as_int(s1, V(1), ty), w):
                    self.oblig('div0', s2, b - 1, x, 'divisor is not zero')
                    if s2.store.dead:
                        continue
                    for s3, q, r in self.udivrem(s2, a, b, x):
                        out.append((s3, q if op == 'udiv' else r))
            return out
        if op in ('sdiv', 'srem'):
            out = []
            for s1, a in self.snorm(st, self.as_int(st, V(0), ty), w):
                for s2, b in self.snorm(s1, self.as_int(s1, V(1), ty), w):
                    bc = s2.store.canon(b)
                    if bc.is_const() and bc.cval() > 0 and all(c % bc.cval() == 0 for c in a.t.values()):
                        out.append((s2, Poly({m: c // bc.cval() for m, c in a.t.items()}) if op == 'sdiv' else ZERO))
                        continue
                    if not bc.is_const():
                        nz = s2.store.prove(b - 1) or s2.store.prove(-b - 1)
                        self.oblig('div0', s2, bool(nz), x, 'divisor is not zero')
                    if s2.store.prove(a) and s2.store.prove(b - 1):
                        for s3, q, r in self.udivrem(s2, a, b, x):
                            out.append((s3, q if op == 'sdiv' else r))
                        continue
                    self.inexact(s2, 'signed division')
                    out.append((s2, self.fresh_of(ty, 'sdiv')))
            return out
        if op in ('shl', 'lshr', 'ashr'):
            a, b = self.as_int(st, V(0), ty), self.as_int(st, V(1), ty)
            b = st.store.canon(b)
            out = []
            for s0, bb in self.norm(st, b, w):
                self.oblig('shift', s0, C(w - 1) - bb, x, 'shift amount below the width')
                bb = s0.store.canon(bb)
                if bb.is_const() and 0 <= bb.cval() < w:
                    k = bb.cval()
                    if op == 'shl':
                        out.append((s0, a * (1 << k)))
                    elif op == 'lshr':
                        for s1, u in self.norm(s0, a, w):
                            for s2, q, r in self.udivrem(s1, u, C(1 << k), x):
                                out.append((s2, q))
                    else:
                        for s1, u in self.snorm(s0, a, w):
                            if s1.store.prove(u):
                                for s2, q, r in self.udivrem(s1, u, C(1 << k), x):
                                    out.append((s2, q))
                            else:
                                self.inexact(s1, 'arithmetic shift')
                                out.append((s1, self.fresh_of(ty, 'ashr')))
                else:
                    self.inexact(s0, 'variable shift')
                    out.append((s0, self.fresh_of(ty, 'sh')))
            return out
        if op in ('and', 'or', 'xor'):
            a, b = self.as_int(st, V(0), ty), self.as_int(st, V(1), ty)
            a, b = st.store.canon(a), st.store.canon(b)
            if a.is_const():
                a, b = b, a
            if a.is_const() and b.is_const():
                m = (1 << w) - 1
                x1, y1 = a.cval() & m, b.cval() & m
                return [(st, C({'and': x1 & y1, 'or': x1 | y1, 'xor': x1 ^ y1}[op]))]
            if w == 1:
                out = []
                for s1, t1 in self.truth(st, a):
                    for s2, t2 in self.truth(s1, b):
                        out.append((s2, C(int({'and': t1 and t2, 'or': t1 or t2, 'xor': t1 != t2}[op]))))
                return out
            if b.is_const():
                m = b.cval() & ((1 << w) - 1)
                if op == 'and' and m == 0:
                    return [(st, ZERO)]
                if op == 'and' and (m & (m + 1)) == 0:
                    out = []
                    for s1, u in self.norm(st, a, w):
                        for s2, q, r in self.udivrem(s1, u, C(m + 1), x):
                            out.append((s2, r))
                    return out
                if op in ('or', 'xor') and m == 0:
                    return [(st, a)]
                if op == 'xor' and m == (1 << w) - 1:
                    return [(st, C(-1) - a)]
            if a == b:
                return [(st, a if op != 'xor' else ZERO)]
            # bit tricks: only bounds are kept
            out = []
            for s1, u in self.norm(st, a, w):
                for s2, v in self.norm(s1, b, w):
                    r = Poly.sym(fresh(op, 'i', 0, (1 << w) - 1))
                    if op == 'or':
                        s2.store.add_ge(r - u)
                        s2.store.add_ge(r - v)
                        s2.store.add_ge(u + v - r)
                    elif op == 'and':
                        s2.store.add_ge(u - r)
                        s2.store.add_ge(v - r)
                    else:
                        s2.store.add_ge(u + v - r)
                    self.inexact(s2, 'bitwise %s' % op)
                    out.append((s2, r))
            return out
        if op == 'icmp':
            return self.icmp(st, x['pred'], V(0), V(1), x['cty'])
        if op == 'select':
            out = []
            for s, t in self.truth(st, V(0)):
                s.path = s.path + ((F.name, ('sel', x['id']), t),)
                out.append((s, self.val(s, ops[1 if t else 2])))
            return out
        if op in ('zext', 'trunc', 'sext'):
            a = V(0)
            fw = type_bits(x['from'])
            if not isinstance(a, Poly):
                a = self.as_int(st, a, x['from'])
            if op == 'trunc':
                return [(st, a)] if w != 1 else self.norm(st, a, 1)
            return self.norm(st, a, fw) if op == 'zext' else self.snorm(st, a, fw)
        if op == 'ptrtoint':
            return [(st, PInt(V(0)))]
        if op == 'inttoptr':
            v = V(0)
            return [(st, v.ptr if isinstance(v, PInt) else UNDEF)]
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return [(st, V(0))]
        if op == 'extractvalue':
            v = V(0)
            for i in x['idx']:
                v = v.items[i] if isinstance(v, Agg) and i < len(v.items) else UNDEF
            return [(st, v)]
        if op == 'insertvalue':
            a = V(0)
            items = list(a.items) if isinstance(a, Agg) else []
            i = x['idx'][0]
            while len(items) <= i:
                items.append(UNDEF)
            items[i] = V(1)
            return [(st, Agg(tuple(items)))]
        if op == 'landingpad':
            return [(st, Agg((('excptr', st.exc), ('sel', st.exc, tuple(tuple(map(str, c[1])) for c in x['clauses'])))))]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            r = self.fp(op, V(0), V(1))
            return [(st, FV('const', to_float(r.args[0])) if ty == 'float' and isinstance(r, FV) and r.op == 'const' else r)]
        if op == 'fneg':
            return [(st, self.fp('fneg', V(0)))]
        if op in ('uitofp', 'sitofp'):
            out = []
            fw = type_bits(x['from'])
            for s, u in (self.norm if op == 'uitofp' else self.snorm)(st, self.as_int(st, V(0), x['from']), fw):
                out.append((s, FV('int', u)))
            return out
        if op in ('fpext', 'fptrunc'):
            v = V(0)
            if op == 'fptrunc':
                if isinstance(v, FV) and v.op == 'const' and ty == 'float' and not self.hooks.get('fp'):
                    return [(st, FV('const', to_float(v.args[0])))]
                return [(st, FV('fptrunc', v))]
            return [(st, v)]
        if op in ('fptoui', 'fptosi'):
            return self.vec.fp_to_int(self, st, V(0), w, x)
        if op == 'fcmp':
            self.inexact(st, 'floating-point comparison')
            t = st.copy()
            return [(st, ZERO), (t, ONE)]
        self.inexact(st, 'instruction %s' % op)
        return [(st, self.fresh_of(ty, op) if ty else None)]

    def fp(self, op, *a):
        h = self.hooks.get('fp')
        if h:
            return h(self, op, a)
        if any(not isinstance(v, FV) for v in a):
            return FV('opaque', fresh('fp').id)
        p = [self.vec.as_pf(v) for v in a]
        if all(x is not None for x in p):
            r = None
            if op == 'fadd':
                r = p[0] + p[1]
            elif op == 'fsub':
                r = p[0] - p[1]
            elif op == 'fmul':
                r = p[0] * p[1]
            elif op == 'fneg':
                r = -p[0]
            elif op == 'fdiv' and p[1].is_const() and p[1].cval():
                r = p[0] * (1.0 / p[1].cval())
            if r is not None:
                if all(v.op == 'int' for v in a) and op in ('fadd', 'fsub') and False:
                    return FV('int', r)
                return self.vec.mk_pf(r)
        if all(v.op == 'const' for v in a):
            p = [v.args[0] for v in a]
            try:
                r = {'fadd': lambda: p[0] + p[1], 'fsub': lambda: p[0] - p[1], 'fmul': lambda: p[0] * p[1],
                     'fdiv': lambda: p[0] / p[1], 'fneg': lambda: -p[0]}[op]()
                return FV('const', r)
            except Exception:
                pass
        return FV(op, *a)

    # ---------------------------------------------------------------- calls
    def call(self, F, x, st, frame):
        c = x['callee']
        if c[0] != 'g':
            self.inexact(st, 'indirect call')
            return [(st, 'ret', self.fresh_of(x.get('ty', ''), 'ind'))]
        name = c[1]
        G = self.P.fns.get(name)
        args = [self.val(st, o) for o in x['ops']]
        q = G.q if G else qname(name)
        self.calls_seen.add(q.base)
        h = self.contracts.get(q.base)
        if h is not None:
            r = h(self, st, x, G, args)
            if r is not None:
                return r
        r = self.vec.std_call(self, st, x, G, q, args, frame)
        if r is not None:
            return r
        if G is not None and not G.decl:
            return self.call_fn(G, args, st, x)
        # unknown external
        self.inexact(st, 'call of %s' % q.base)
        for a in args:
            self.vec.havoc_ptr(self, st, a)
        return [(st, 'ret', self.fresh_of(x.get('ty', ''), 'ext'))]

    # ---------------------------------------------------------------- loops
    from loops import run_loop


from loops import norm_head
