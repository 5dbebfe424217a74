"""Polynomials over symbols, and the relational store (equalities plus
polyhedral inequalities over monomials) used by the abstract interpreter."""
import ctypes, os
from fractions import Fraction
from math import gcd

HERE = os.path.dirname(os.path.abspath(__file__))
_lp = ctypes.CDLL(os.path.join(HERE, '..', 'build', 'liblp.so'))
_lp.lp_feasible.argtypes = [ctypes.c_char_p, ctypes.c_long]
_lp.lp_feasible.restype = ctypes.c_int


class Sym:
    __slots__ = ('id', 'name', 'kind', 'lo', 'hi', 'key')

    def __repr__(self):
        return self.name


SYMS = []
_INTERN = {}


def fresh(name, kind='i', lo=0, hi=None, key=None):
    s = Sym()
    s.id = len(SYMS)
    s.name = '%s#%d' % (name, s.id) if kind in ('i',) else name
    s.kind, s.lo, s.hi, s.key = kind, lo, hi, key
    SYMS.append(s)
    return s


def intern(key, name, kind, lo, hi):
    s = _INTERN.get(key)
    if s is None:
        s = fresh(name, kind, lo, hi, key)
        _INTERN[key] = s
    return s


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        n = d.get(s, 0) + e
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def sym(s):
        return Poly({((s.id, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if not o:
                return ZERO
            return Poly({m: c * o for m, c in self.t.items()})
        d = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                k = mono_mul(m, m2)
                n = d.get(k, 0) + c * c2
                if n:
                    d[k] = n
                else:
                    d.pop(k, None)
        return Poly(d)
    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def nonconst(self):
        if () not in self.t:
            return self
        d = dict(self.t)
        d.pop(())
        return Poly(d)

    def syms(self):
        r = set()
        for m in self.t:
            for s, _ in m:
                r.add(s)
        return r

    def single(self):
        """the symbol if this polynomial is exactly one symbol"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return SYMS[m[0][0]]
        return None

    def is_linear(self):
        return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in self.t)

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items()):
            f = '*'.join((SYMS[s].name if e == 1 else '%s^%d' % (SYMS[s].name, e)) for s, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append('-' + f)
            else:
                out.append('%s*%s' % (c, f))
        return ' + '.join(out).replace('+ -', '- ')


ZERO = Poly({})
ONE = Poly({(): 1})


def C(c):
    return Poly.const(c)


class Content:
    """An immutable digit sequence: size polynomial, value symbol."""
    n = 0

    def __init__(self, name, size, M, canon=False, maxlen=1 << 58, digits=True):
        Content.n += 1
        self.id = Content.n
        self.name = name
        self.size = size
        self.M = M
        self.canon = canon
        self.digits = digits
        self.dighi = None      # override digit upper bound
        self.V = Poly.sym(fresh('V(%s.%d)' % (name, self.id), 'V', 0, None, ('V', self)))
        self.vpoly = None      # V as it was computed (for snapshots)

    def __repr__(self):
        return '%s.%d' % (self.name, self.id)


class Radix:
    """weights and prefixes for one radix"""

    def __init__(self, B):
        self.B = B

    def W(self, e):
        r = ONE
        for m, c in e.t.items():
            if not m:
                if abs(c) > 4096:
                    # an index that wrapped around: no number of this size is built
                    k = C(c)
                    r = r * Poly.sym(intern(('Wx', self.B, k), 'W(%s)' % c, 'Wx', 1, None))
                elif c >= 0:
                    r = r * (self.B ** c)
                else:
                    r = r * Fraction(1, self.B ** (-c))
                continue
            if len(m) == 1 and m[0][1] == 1 and int(c) == c:
                s = SYMS[m[0][0]]
                w = intern(('W', self.B, s.id), 'W(%s)' % s.name, 'W', 1, None)
                r = r * Poly({((w.id, int(c)),): 1})
            else:
                k = Poly({m: c})
                w = intern(('Wx', self.B, k), 'W(%r)' % k, 'Wx', 1, None)
                r = r * Poly.sym(w)
        return _int(r)

    def dig(self, c, e):
        hi = c.M if c.dighi is None else c.dighi
        s = intern(('d', c, e), '%s[%r]' % (c, e), 'd', 0, hi)
        return Poly.sym(s)

    def P(self, c, e):
        k = e.cval()
        b = e.nonconst()
        if b == ZERO:
            if k <= 0:
                return ZERO
            if k <= 6:
                r = ZERO
                for t in range(int(k)):
                    r = r + self.dig(c, C(t)) * (self.B ** t)
                return r
            k0 = 0
        r = Poly.sym(intern(('P', c, b), 'P(%s,%r)' % (c, b), 'P', 0, None)) if b != ZERO else ZERO
        if abs(k) > 6 or int(k) != k:
            return Poly.sym(intern(('P', c, e), 'P(%s,%r)' % (c, e), 'P', 0, None))
        if k > 0:
            for t in range(int(k)):
                r = r + self.W(b + t) * self.dig(c, b + t)
        else:
            for t in range(int(k), 0):
                r = r - self.W(b + t) * self.dig(c, b + t)
        return r


def _int(p):
    ch = False
    for m, c in p.t.items():
        if isinstance(c, Fraction) and c.denominator == 1:
            ch = True
    if not ch:
        return p
    return Poly({m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in p.t.items()})


def subst(p, env, radix, fix=None):
    """substitute symbols (id -> Poly) everywhere, also inside composite keys.
    fix(sym, idx) may return a replacement polynomial for a composite."""
    out = ZERO
    for m, c in p.t.items():
        term = C(c)
        for s, e in m:
            term = term * _sub_sym(s, e, env, radix, fix)
        out = out + term
    return _int(out)


def _sub_sym(s, e, env, radix, fix):
    if s in env:
        r = env[s]
        if e < 0:
            raise ValueError('negative power')
        x = ONE
        for _ in range(e):
            x = x * r
        return x
    S = SYMS[s]
    k = S.kind
    if k == 'W':
        i = S.key[2]
        if i in env:
            return radix.W(env[i] * e)
        return Poly({((s, e),): 1})
    if k == 'Wx':
        i = subst(S.key[2], env, radix, fix)
        if i != S.key[2]:
            return radix.W(i * e)
        return Poly({((s, e),): 1})
    if k in ('P', 'd'):
        idx = subst(S.key[2], env, radix, fix)
        r = None
        if fix:
            r = fix(k, S.key[1], idx)
        if r is None:
            if idx == S.key[2]:
                return Poly({((s, e),): 1})
            r = radix.P(S.key[1], idx) if k == 'P' else radix.dig(S.key[1], idx)
            if fix and r.syms():
                r = subst(r, {}, radix, fix) if _again(r, s) else r
        x = ONE
        for _ in range(e):
            x = x * r
        return x
    return Poly({((s, e),): 1})


def _again(r, s):
    return r.syms() != {s}


class Dead(Exception):
    pass


STATS = {'lp': 0, 'prove': 0}


class Store:
    """Facts: equalities sym := poly, and nonconst-poly >= bound."""

    def __init__(self, radix):
        self.radix = radix
        self.eqs = {}
        self.ge = {}      # Poly (no const, primitive) -> lower bound
        self.cache = {}
        self.dead = False
        self.lemmas = []  # extra polys >= 0 (nonlinear), canonicalised lazily

    def copy(self):
        s = Store.__new__(Store)
        s.radix = self.radix
        s.eqs = dict(self.eqs)
        s.ge = dict(self.ge)
        s.cache = dict(self.cache)
        s.dead = self.dead
        s.lemmas = list(self.lemmas)
        return s

    # -- canonical forms -------------------------------------------------
    def _fix(self, kind, c, idx):
        q = idx - self.canon_size(c)
        if q.is_const():
            if q.cval() >= 0:
                return ZERO if kind == 'd' else self._V(c)
            return None
        lb = self.quick_lb(q)
        if lb is not None and lb >= 0:
            return ZERO if kind == 'd' else self._V(c)
        return None

    def _V(self, c):
        v = c.V
        s = v.single().id
        if s in self.eqs:
            return self.eqs[s]
        return v

    def canon_size(self, c):
        return self._canon_plain(c.size)

    def _canon_plain(self, p):
        if not any(s in self.eqs for s in p.syms()):
            return p
        return subst(p, self.eqs, self.radix)

    def canon(self, p):
        if p.is_const():
            return p
        for _ in range(12):
            q = subst(p, self.eqs, self.radix, self._fix)
            for s in q.syms():
                S = SYMS[s]
                if S.kind == 'V' and S.key and s not in self.eqs:
                    c = S.key[1]
                    if c.digits and c.dighi is None:
                        n = self.canon_size(c)
                        if n.is_const() and n.cval() <= 4:
                            q = subst(q, {s: self.radix.P(c, n)}, self.radix, self._fix)
            if q == p:
                return q
            p = q
        return p

    def quick_lb(self, q):
        """syntactic lower bound of a linear polynomial"""
        n = q.nonconst()
        g, n = primitive(n)
        if n in self.ge:
            return self.ge[n] * g + q.cval()
        # interval bound
        lo = q.cval()
        for m, c in n.t.items():
            l, h = mono_bounds(m)
            cc = c * g
            if cc > 0:
                if l is None:
                    return None
                lo += cc * l
            else:
                if h is None:
                    return None
                lo += cc * h
        return lo

    # -- adding facts ----------------------------------------------------
    def add_ge(self, p):
        """p >= 0"""
        p = self.canon(p)
        if p.is_const():
            if p.cval() < 0:
                self.dead = True
            return
        g, n = primitive(p.nonconst())
        b = Fraction(-p.cval()) / g
        if integral(n):
            b = -((-b.numerator) // b.denominator)
        if n in self.ge and self.ge[n] >= b:
            return
        if b == 0 and len(n.t) > 1 and all(c < 0 and len(m) == 1 and SYMS[m[0][0]].lo == 0 and SYMS[m[0][0]].kind == 'i' for m, c in n.t.items()):
            # a sum of natural numbers that is not positive
            for m in list(n.t):
                self.add_eq(Poly({m: 1}))
            return
        # opposite known? then maybe an equality
        o = -n
        if o in self.ge:
            if -self.ge[o] < b:
                self.dead = True
                return
            if -self.ge[o] == b:
                self.ge.pop(o, None)
                self._add_eq0(n - b)
                return
        self.ge[n] = b
        self.cache = {}

    def add_eq(self, p):
        p = self.canon(p)
        if p.is_const():
            if p.cval():
                self.dead = True
            return
        self._add_eq0(p)

    def _add_eq0(self, p):
        s = pick_symbol(p)
        self.cache = {}
        if s is None:
            g, n = primitive(p.nonconst())
            b = Fraction(-p.cval()) / g
            if b.denominator == 1:
                b = int(b)
            for nn, bb in ((n, b), (-n, -b)):
                if nn not in self.ge or self.ge[nn] < bb:
                    self.ge[nn] = bb
            return
        c = p.t[((s, 1),)]
        d = dict(p.t)
        d.pop(((s, 1),))
        rhs = _int(Poly(d) * Fraction(-1, c) if c not in (1, -1) else Poly(d) * (-c))
        env = {s: rhs}
        # an eliminated prefix or digit whose index mentions s is a fact about its new form
        moved = []
        for k in [k for k in self.eqs if SYMS[k].kind in ('P', 'd', 'W', 'Wx')]:
            inner = set()
            collect_inner(k, inner)
            if s in inner:
                q = subst(Poly.sym(SYMS[k]), env, self.radix, None)
                moved.append(q - subst(self.eqs.pop(k), env, self.radix, None))
        self.eqs = {k: subst(v, env, self.radix, None) for k, v in self.eqs.items()}
        self.eqs[s] = rhs
        S = SYMS[s]
        old = list(self.ge.items())
        self.ge = {}
        # keep the static range of the eliminated symbol
        if S.lo is not None:
            self.add_ge(rhs - S.lo)
        if S.hi is not None:
            self.add_ge(C(S.hi) - rhs)
        for n, b in old:
            if self.dead:
                return
            self.add_ge(n - b)
        for m in moved:
            if self.dead:
                return
            self.add_eq(m)

    # -- proving ---------------------------------------------------------
    def prove(self, p, depth=3):
        """is p >= 0 entailed"""
        if self.dead:
            return True
        p = self.canon(p)
        if p.is_const():
            return p.cval() >= 0
        lb = self.quick_lb(p)
        if lb is not None and lb >= 0:
            return True
        r = self.cache.get(p)
        if r is None:
            STATS['prove'] += 1
            r = self._lp(p, depth)
            self.cache[p] = r
        return r

    def infeasible(self, focus=()):
        """the facts connected with the focus polynomials contradict each other"""
        if self.dead:
            return True
        ms = set()
        for p in focus:
            ms |= set(m for m in self.canon(p).t if m)
        return self._lp(C(-1), 3, ms)

    def prove_eq(self, p):
        p = self.canon(p)
        if p.is_const():
            return p.cval() == 0
        return self.prove(p) and self.prove(-p)

    def unsat_with(self, p):
        """p >= 0 contradicts the store"""
        return self.prove(-p - 1)

    def _lp(self, p, depth, extra=()):
        den = 1
        neg = False
        for m, c in p.t.items():
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
            if any(e < 0 for _, e in m) and not neg:
                x = ZERO
                for s, k in m:
                    if SYMS[s].kind == 'W':
                        x = x + Poly({((SYMS[s].key[2], 1),): k})
                # a weight with a natural exponent is a natural number
                neg = not self._lin_ge(x)
        p = _int(p * den)
        rows = []
        goal = -p - (0 if neg else 1)
        rows.append((goal, '>'))
        monos = set(m for m in goal.t if m) | set(extra)
        used = set()
        cons = [n - b for n, b in self.ge.items()]
        consm = [frozenset(m for m in c.t if m) for c in cons]
        seen_mono = set()
        lem = set()
        for d in range(depth):
            todo = monos - seen_mono
            if not todo and d:
                break
            seen_mono |= todo
            new = []
            for i, c in enumerate(cons):
                if i in used:
                    continue
                if consm[i] & monos:
                    used.add(i)
                    new.append(c)
            for l in self.lemmas_for(monos, cons, consm):
                if l not in lem:
                    lem.add(l)
                    new.append(l)
            for c in new:
                rows.append((c, '>'))
                monos |= set(m for m in c.t if m)
            if len(monos) > 60 or len(rows) > 140:
                break
        for l in self.wlemmas(monos):
            if l not in lem:
                rows.append((l, '>'))
        for m in list(monos):
            l, h = mono_bounds(m)
            pm = Poly({m: 1})
            if l is not None and l > 0:
                rows.append((pm - l, '>'))
            if h is not None:
                rows.append((C(h) - pm, '>'))
        return not lp(rows)

    def lemmas_for(self, monos, cons, consm):
        out = []
        R = self.radix
        wparts = set()
        for m in monos:
            w = tuple((s, e) for s, e in m if SYMS[s].kind in ('W', 'Wx'))
            x = tuple((s, e) for s, e in m if SYMS[s].kind not in ('W', 'Wx'))
            if w and x:
                wparts.add(w)
            wp = Poly({w: 1})
            if len(x) == 1 and x[0][1] == 1:
                S = SYMS[x[0][0]]
                pm = Poly({m: 1})
                if w:
                    if S.lo is not None:
                        out.append(pm - wp * S.lo)
                    if S.hi is not None:
                        out.append(wp * S.hi - pm)
                if S.kind == 'P':
                    c, e = S.key[1], S.key[2]
                    if c.digits and c.dighi is None:
                        out.append(self.canon(wp * (R.W(e) - 1) - pm))
                    out.append(self.canon(wp * c.V) - pm)
                    if c.digits and c.dighi is None and not w:
                        for t in (1, 2):
                            if ('d', c, e - t) in _INTERN:
                                q = self.canon(R.P(c, e - t))
                                out.append(q)
                                out.append(self.canon(R.W(e - t) - 1) - q)
                            else:
                                break
                if S.kind == 'V' and S.key:
                    c = S.key[1]
                    if c.digits and c.dighi is None:
                        out.append(self.canon(wp * (R.W(c.size) - 1)) - pm)
                    if c.canon:
                        out.append(pm * R.B - self.canon(wp * R.W(c.size)) + wp)
                if S.kind == 'd':
                    c, e = S.key[1], S.key[2]
                    # value bounds from one digit
                    q = self.canon_size(c) - e - 1
                    lb = q.cval() if q.is_const() else self.quick_lb(q)
                    if lb is not None and lb >= 0:
                        wd = self.canon(R.W(e) * Poly.sym(S))
                        if set(wd.t) & monos:
                            out.append(self.canon(c.V - R.W(e) * Poly.sym(S)))
                    if c.canon and q.is_const() and q.cval() == 0:
                        n = self.canon_size(c)
                        lb = n.cval() - 1 if n.is_const() else self.quick_lb(n - 1)
                        if lb is not None and lb >= 0:
                            out.append(pm - wp)
            elif len(x) == 2 and x[0][1] == 1 and x[1][1] == 1:
                a, b = SYMS[x[0][0]], SYMS[x[1][0]]
                pa, pb, pm = Poly.sym(a), Poly.sym(b), Poly({x: 1})
                if a.hi is not None and b.hi is not None and a.lo == 0 and b.lo == 0:
                    for l in (pa * b.hi - pm, pb * a.hi - pm, pm - pa * b.hi - pb * a.hi + a.hi * b.hi):
                        out.append(l * wp if w else l)
            elif len(x) == 1 and x[0][1] == 2:
                a = SYMS[x[0][0]]
                pa, pm = Poly.sym(a), Poly({x: 1})
                if a.hi is not None and a.lo == 0:
                    for l in (pa * a.hi - pm, pm - pa):
                        out.append(l * wp if w else l)
        if wparts:
            for c, cm in zip(cons, consm):
                if all(len(m) == 1 and m[0][1] == 1 and SYMS[m[0][0]].kind not in ('W', 'Wx') for m in cm):
                    for w in wparts:
                        if any(mono_mul(m, w) in monos for m in cm):
                            out.append(c * Poly({w: 1}))
        return out

    def wlemmas(self, monos):
        """order of pure weights"""
        R = self.radix
        ws = []
        for m in monos:
            if m and all(SYMS[s].kind == 'W' for s, _ in m):
                e = ZERO
                for s, k in m:
                    e = e + Poly({((SYMS[s].key[2], 1),): k})
                ws.append((m, e))
        out = []
        if len(ws) > 7:
            ws = ws[:7]
        for m, e in ws:
            if self._lin_ge(e):
                out.append(Poly({m: 1}) - 1)
                k = 1
                if self._lin_ge(e - 1):
                    out.append(Poly({m: 1}) - R.B)
        for i, (m1, e1) in enumerate(ws):
            for j, (m2, e2) in enumerate(ws):
                if i == j:
                    continue
                if self._lin_ge(e1 - e2):
                    k = 0
                    if self._lin_ge(e1 - e2 - 1):
                        k = 1
                        if self._lin_ge(e1 - e2 - 2):
                            k = 2
                    out.append(Poly({m1: 1}) - Poly({m2: R.B ** k}))
        return out

    def _lin_ge(self, q):
        """q >= 0 for a linear integer polynomial (no weight reasoning)"""
        q = self._canon_plain(q)
        if q.is_const():
            return q.cval() >= 0
        lb = self.quick_lb(q)
        if lb is not None and lb >= 0:
            return True
        key = ('lin', q)
        r = self.cache.get(key)
        if r is not None:
            return r
        rows = [(-q - 1, '>')]
        monos = set(m for m in q.t if m)
        used = set()
        for _ in range(3):
            add = False
            for n, b in self.ge.items():
                if n in used or not n.is_linear():
                    continue
                if any(m in monos for m in n.t):
                    used.add(n)
                    rows.append((n - b, '>'))
                    monos |= set(n.t)
                    add = True
            if not add:
                break
        for m in monos:
            l, h = mono_bounds(m)
            pm = Poly({m: 1})
            if l:
                rows.append((pm - l, '>'))
            if h is not None:
                rows.append((C(h) - pm, '>'))
        r = not lp(rows)
        self.cache[key] = r
        return r


def mono_bounds(m):
    lo, hi = 1, 1
    for s, e in m:
        S = SYMS[s]
        if e < 0:
            lo = 0 if lo is not None else None
            # W^-k <= 1
            if S.lo is None or S.lo < 1:
                hi = None
            continue
        if S.lo is None or S.lo < 0:
            if len(m) == 1 and e == 1:
                return S.lo, S.hi
            return None, None
        lo = lo * S.lo ** e
        hi = None if (hi is None or S.hi is None) else hi * S.hi ** e
    return lo, hi


def integral(p):
    return all(not isinstance(c, Fraction) or c.denominator == 1 for c in p.t.values()) and \
        all(e > 0 for m in p.t for _, e in m)


def primitive(n):
    """(g, n/g) with integer coprime coefficients, g > 0"""
    if not n.t:
        return 1, n
    den = 1
    for c in n.t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in n.t.values():
        g = gcd(g, int(c * den))
    f = Fraction(g, den)
    if f == 1:
        return 1, n
    return (int(f) if f.denominator == 1 else f), Poly({m: int(c / f) for m, c in n.t.items()})


def pick_symbol(p):
    """symbol occurring only linearly (not in composites of p)"""
    inside = set()
    deep = set()
    for m in p.t:
        for s, e in m:
            collect_inner(s, deep)
            if len(m) > 1 or e != 1:
                inside.add(s)
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            s = m[0][0]
            if s in inside or s in deep:
                continue
            S = SYMS[s]
            if S.kind in ('W', 'Wx'):
                continue
            unit = c in (1, -1)
            pr = {'i': 4, 'd': 2, 'V': 3, 'P': 0, 'n': 1}.get(S.kind, 1)
            if S.kind == 'i' and not unit and any(SYMS[x[0]].kind in ('W', 'P', 'V') for y in p.t for x in y):
                pr = 1
            rank = (unit, pr, s)
            if best is None or rank > best[0]:
                best = (rank, s)
    return best[1] if best else None


def collect_inner(s, out):
    S = SYMS[s]
    if S.kind == 'W':
        out.add(S.key[2])
    elif S.kind == 'Wx':
        for x in S.key[2].syms():
            out.add(x)
            collect_inner(x, out)
    elif S.kind in ('P', 'd'):
        for x in S.key[2].syms():
            out.add(x)
            collect_inner(x, out)
        for x in S.key[1].size.syms():
            pass


def lp(rows):
    """True if the rows may be satisfiable"""
    STATS['lp'] += 1
    var = {}
    flags = []
    out = []
    for p, k in rows:
        items = []
        for m, c in p.t.items():
            if not m:
                continue
            i = var.get(m)
            if i is None:
                i = var[m] = len(flags)
                l, _ = mono_bounds(m)
                flags.append('n' if l is not None and l >= 0 else 'f')
            items.append('%d %s' % (i, c))
        out.append('%s %s %d %s' % (k, p.cval(), len(items), ' '.join(items)))
    txt = '%d %d %s %s' % (len(flags), len(rows), ' '.join(flags), ' '.join(out))
    r = _lp.lp_feasible(txt.encode(), 400)
    return r != 0
