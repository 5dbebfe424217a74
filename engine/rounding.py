"""Bound on the rounding error of a multiplication through the transform.

The floating-point values written by one iteration of each loop of the helpers
are kept as expression trees (for every length and every position at once).  A
tree is evaluated twice: exactly, as a polynomial in its inputs and in the
cosine and sine of the twiddle angle, and as a bound on the rounding error in
units of the unit roundoff, a polynomial with non-negative coefficients in the
magnitudes.  From the two come the relative error of one level of the
transform, of the pointwise product and of the scaling, and from those, with
the largest number of digits for which the transform is entered, the error of
one convolution sum."""
import math
from fractions import Fraction as Q
from ops import *
from fourier import find, get, cx_input, same_size, mk, wrote, thrower, length_contracts, above, put
from kproof import kobj
import arith, driver, fourier, safe
import sym as S_

PI = Q(31415926535897932384626433832795028841971693993751, 10 ** 49)
LIBM = 1            # error of cos and sin, in units of 2^-53


class Unknown(Exception):
    pass


# ------------------------------------------------------------------ the trees
def record(E, F, st, args, contracts):
    """values written to complex containers: [(function, site, re, im, state, index)]"""
    out = []

    def cx_write(E, st, p, v, part):
        if E.rec:
            out.append((E.fnstack[-1], E.curloc, p.c, v, part, st.copy(), p.idx))
    E.contracts = contracts
    E.hooks = {'fp': lambda E, op, a: FVn(op, *a), 'cx_set': cx_write}
    rs = E.call_fn(F, args, st)
    return out, rs


def FVn(op, *a):
    return S_.FV(op, *a)


def ispow(q):
    q = abs(q)
    if q == 0:
        return True
    n, d = q.numerator, q.denominator
    return n & (n - 1) == 0 and d & (d - 1) == 0


class Val:
    """exact: monomial -> Fraction; err: monomial -> float, in unit roundoffs"""
    __slots__ = ('x', 'e')

    def __init__(self, x, e):
        self.x, self.e = x, e


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def times(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            t = tuple(sorted(m + n))
            r[t] = r.get(t, 0) + c * d
    return {m: c for m, c in r.items() if c}


def maj(p):
    return {m: float(abs(c)) for m, c in p.items()}


class Eval:
    def __init__(self, st, unit):
        self.st, self.unit = st, unit       # unit: roundoff of the type over 2^-53
        self.angles = {}
        self.memo = {}

    def go(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self.go1(v)
        return r

    def go1(self, v):
        if not isinstance(v, S_.FV):
            raise Unknown('not a floating value')
        op, a, u = v.op, v.args, self.unit
        if op in ('re', 'im'):
            return Val({((op,) + (a[0], str(a[1])),): Q(1)}, {})
        if op == 'const':
            return Val({(): Q(a[0])} if a[0] else {}, {})
        if op == 'int':
            p = self.st.store.canon(a[0])
            if p.is_const():
                return Val({(): Q(p.cval())} if p.cval() else {}, {})
            return Val({(('int', str(p)),): Q(1)}, {})
        if op == 'fneg':
            r = self.go(a[0])
            return Val({m: -c for m, c in r.x.items()}, r.e)
        if op in ('fadd', 'fsub'):
            p, q = self.go(a[0]), self.go(a[1])
            x = add(p.x, q.x, 1 if op == 'fadd' else -1)
            e = add(p.e, q.e)
            if p.x and q.x:
                e = add(e, maj(x), u)
            return Val(x, e)
        if op == 'fmul':
            p, q = self.go(a[0]), self.go(a[1])
            x = times(p.x, q.x)
            e = add(times(maj(p.x), q.e), times(p.e, maj(q.x)))
            if not any(set(z.x) <= {()} and not z.e and ispow(z.x.get((), Q(0))) for z in (p, q)):
                e = add(e, maj(x), u)
            return Val(x, e)
        if op == 'fdiv':
            p, q = self.go(a[0]), self.go(a[1])
            if set(q.x) == {()} and not q.e:
                k = 1 / q.x[()]
                x = {m: c * k for m, c in p.x.items()}
                e = {m: c * abs(float(k)) for m, c in p.e.items()}
                return Val(x, e if ispow(k) else add(e, maj(x), u))
            if len(q.x) == 1 and not q.e and list(q.x.values()) == [1] and list(q.x)[0][0][0] == 'int':
                # division by a length: a scale, with one rounding
                i = (('inv', list(q.x)[0][0][1]),)
                x = times(p.x, {i: Q(1)})
                return Val(x, add(times(p.e, {i: 1.0}), maj(x), u))
            raise Unknown('division')
        if op in ('cos', 'sin', 'cosf', 'sinf'):
            w, bound, sign = self.angle(a[0])
            if w is None:
                return Val({(): Q(1)} if op[0] == 'c' else {}, {})
            # the computed angle is off by bound[0], the function by bound[1]
            d = (('sin' if op[0] == 'c' else 'cos', w),)
            return Val({((op[:3], w),): Q(sign if op[0] == 's' else 1)}, {d: bound[0], (): bound[1]})
        if op == 'fptrunc':
            r = self.go(a[0])
            return Val(r.x, add(r.e, maj(r.x), 2.0 ** 29))
        raise Unknown(op)

    def angle(self, v):
        """(name, (error of the angle, of its functions), sign); no name for the angle zero"""
        k, num, den, rounds = self.ratio(v)
        if k == 0 or any(n.is_const() and not n.cval() for n in num):
            return None, None, 1
        S = self.st.store
        if len(num) > 1 or len(den) > 1:
            raise Unknown('angle')
        n = num[0] if num else C(1)
        d = den[0] if den else C(1)
        for top in (Q(1, 2), Q(1), Q(2)):
            if S.prove(d * top.numerator - n * top.denominator):
                break
        else:
            raise Unknown('the angle is not bounded')
        # the multiple of pi that is meant
        t = k / PI
        near = Q(round(t * 2), 2)
        if near == 0 or abs(t / near - 1) > Q(1, 50):
            raise Unknown('angle')
        dev = float(abs(t / near - 1)) * 2.0 ** 53
        big = float(abs(k) * top)
        err = (big * (rounds * self.unit + dev) * 1.0001, (LIBM + 1e-6) * self.unit)
        name = '%s*(%s)/(%s)' % (abs(near), S.canon(n), S.canon(d))
        return name, err, 1 if k > 0 else -1

    def ratio(self, v):
        """v = constant * num / den, and the number of roundings"""
        if not isinstance(v, S_.FV):
            raise Unknown('angle')
        op, a = v.op, v.args
        if op == 'const':
            return Q(a[0]), [], [], 0.0
        if op == 'int':
            p = self.st.store.canon(a[0])
            if p.is_const():
                return Q(p.cval()), [], [], 0.0
            return Q(1), [p], [], 0.0
        if op == 'fneg':
            k, n, d, r = self.ratio(a[0])
            return -k, n, d, r
        if op in ('fmul', 'fdiv'):
            k, n, d, r = self.ratio(a[0])
            l, m, f, s = self.ratio(a[1])
            c = [not x[1] and not x[2] and ispow(x[0]) for x in ((k, n, d), (l, m, f))]
            one = 0.0 if any(c) and (op == 'fmul' or c[1]) or k == 0 or l == 0 else 1.0
            if op == 'fmul':
                return k * l, n + m, d + f, r + s + one
            if l == 0:
                raise Unknown('angle')
            return k / l, n + f, d + m, r + s + one
        if op == 'fptrunc':
            k, n, d, r = self.ratio(a[0])
            return k, n, d, r + 2.0 ** 29
        raise Unknown('angle')


def _leaves(p):
    return {f for m in p for f in m if f[0] in ('re', 'im')}


def points(p):
    """the complex inputs a polynomial reads"""
    return {f[1:] for f in _leaves(p)}


ARCS = 64


def trig_cells():
    for i in range(ARCS):
        a, b = math.pi / 2 * i / ARCS, math.pi / 2 * (i + 1) / ARCS
        yield math.cos(a), math.sin(b)


def at(p, trig, leaf):
    """value of a bound at magnitudes of the trigonometric factors"""
    r = 0.0
    for m, c in p.items():
        v = float(c)
        for f in m:
            v *= trig.get(f[0][:3], 1.0) if f[0] in ('cos', 'sin') else leaf(f)
        r += v
    return r


# ----------------------------------------------------------- one level
def level(ws, unit):
    """ws: writes of one iteration [(re, im, state)] -> (eta2, eta1): relative
    error of a level, for the Euclidean norm and entry by entry"""
    vals = []
    pts = set()
    for re, im, st in ws:
        ev = Eval(st, unit)
        r, i = ev.go(re), ev.go(im)
        vals.append((r, i))
        pts |= points(r.x) | points(i.x)
    if len(ws) != 2 or len(pts) != 2:
        raise Unknown('a level combines %d inputs into %d outputs' % (len(pts), len(ws)))
    pts = sorted(pts, key=str)
    cols = [(part,) + p for p in pts for part in ('re', 'im')]
    rows = [v for r in vals for v in r]
    # the exact map preserves lengths up to the factor sqrt(2)
    mat = []
    for v in rows:
        row = []
        for c in cols:
            q = {}
            for m, k in v.x.items():
                ls = [f for f in m if f[0] in ('re', 'im')]
                if len(ls) != 1:
                    raise Unknown('not linear')
                if ls[0] == c:
                    q[tuple(f for f in m if f is not ls[0])] = k
            row.append(q)
        mat.append(row)
    for i in range(4):
        for j in range(i, 4):
            d = {}
            for r in mat:
                d = add(d, times(r[i], r[j]))
            d = pythagoras(d)
            if d != ({(): Q(2)} if i == j else {}):
                raise Unknown('a level does not keep lengths')
    eta2 = eta1 = 0.0
    for c, s in trig_cells():
        T = {'cos': c, 'sin': s}
        A = [[at({tuple(f for f in m if f != col): k for m, k in v.e.items() if col in m}, T, lambda f: 1.0) for col in cols] for v in rows]
        if any(not _leaves({m: 1}) for v in rows for m in v.e):
            raise Unknown('absolute error')
        eta2 = max(eta2, opnorm(A) / math.sqrt(2))
        for o in range(0, 4, 2):
            for b in (0, 2):
                sub = [r[b:b + 2] for r in A[o:o + 2]]
                eta1 = max(eta1, opnorm(sub))
    return eta2, eta1


def pythagoras(p):
    """cos^2 + sin^2 = 1"""
    while True:
        for m, k in p.items():
            s = [f for f in m if f[0] == 'sin']
            w = [f for f in set(s) if s.count(f) >= 2]
            if w:
                r = list(m)
                r.remove(w[0])
                r.remove(w[0])
                c = ('cos', w[0][1])
                p = add({n: x for n, x in p.items() if n != m}, {tuple(sorted(r)): k})
                p = add(p, {tuple(sorted(r + [c, c])): k}, -1)
                break
        else:
            return p


def opnorm(A):
    """upper bound of the spectral norm of a non-negative matrix"""
    n = max(sum(abs(x) for x in r) for r in A)
    m = max(sum(abs(r[j]) for r in A) for j in range(len(A[0])))
    f = math.sqrt(sum(x * x for r in A for x in r))
    # Gram matrix, twice: the norm of its powers bounds the norm
    G = [[sum(r[i] * r[j] for r in A) for j in range(len(A[0]))] for i in range(len(A[0]))]
    for k in range(3):
        G = [[sum(G[i][t] * G[t][j] for t in range(len(G))) for j in range(len(G))] for i in range(len(G))]
    g = max(sum(abs(x) for x in r) for r in G)
    return min(math.sqrt(n * m), f, g ** (1.0 / 16)) * (1 + 1e-9)


# ------------------------------------------------------ the pointwise product
def product(ws, unit):
    """(mu, lam): |error of the product| <= mu*|t||delta| + lam*u*|t|^2"""
    mu = lam = 0.0
    for re, im, st in ws:
        ev = Eval(st, unit)
        vs = [ev.go(re), ev.go(im)]
        pts = sorted(points(vs[0].x) | points(vs[1].x), key=str)
        if not 1 <= len(pts) <= 2:
            raise Unknown('the product reads %d inputs' % len(pts))
        cols = [(part,) + p for p in pts for part in ('re', 'im')]
        L = []
        for v in vs:
            for m, k in v.x.items():
                if len(m) != 2 or any(f not in cols for f in m):
                    raise Unknown('not bilinear')
            A = [[0.0] * len(cols) for _ in cols]
            for m, k in v.e.items():
                if len(m) != 2 or any(f not in cols for f in m):
                    raise Unknown('error of the product')
                i, j = cols.index(m[0]), cols.index(m[1])
                A[i][j] += k / 2
                A[j][i] += k / 2
            L.append(opnorm(A))
        # |J(t)|_F <= sqrt(max column sum of squares) * |t|
        mu = max(mu, frob(vs, cols))
        lam = max(lam, math.hypot(*L))
    return mu, lam


def frob(vs, cols):
    """sup of the Frobenius norm of the Jacobian over |t| = 1"""
    G = [[0.0] * len(cols) for _ in cols]
    for v in vs:
        for c in cols:
            row = [0.0] * len(cols)
            for m, k in v.x.items():
                if c in m:
                    r = list(m)
                    r.remove(c)
                    row[cols.index(r[0])] += float(k) * m.count(c)
            for i in range(len(cols)):
                for j in range(len(cols)):
                    G[i][j] += row[i] * row[j]
    return math.sqrt(opnorm([[abs(x) for x in r] for r in G]))


# -------------------------------------------------------------- the analysis
def unit_of(F):
    """roundoff of the floating type of an instantiation, in units of 2^-53"""
    t = F.dem
    if 'long double' in t:
        raise Unknown('long double')
    if 'float' in t and 'double' not in t:
        return 2.0 ** 29
    if 'double' not in t:
        raise Unknown('floating type of ' + F.q.base)
    return 1.0


def writes_of(sysname, F, contracts):
    """groups of writes that belong to one iteration"""
    sy = Sys(arith.P, sysname)
    E = Engine(sy.P, sy.R, budget=400000)
    st = new_state(sy.R)
    a = safe.cx_any(st, None)
    out, rs = record(E, F, st, a, contracts)
    return E, [w for w in out if w[0] is F], rs


def groups(ws):
    """writes of whole elements, grouped by the inputs they read"""
    g, half, whole = {}, {}, []
    for fn, loc, k, v, part, st, idx in ws:
        at_ = (k, str(st.store.canon(idx)))
        if part is None:
            if not isinstance(v, tuple) or len(v) != 2:
                raise Unknown('an element of unknown value is written')
            whole.append((at_, v[0], v[1], st))
            continue
        # real and imaginary part one after the other
        if at_ in half and half[at_][0] != part:
            p, w, t = half.pop(at_)
            whole.append((at_, v if part == 0 else w, w if part == 0 else v, st))
        else:
            half[at_] = (part, v, st)
    if half:
        raise Unknown('only a part of an element is written')
    for at_, re, im, st in whole:
        pts = tuple(sorted(leaf_points(re) | leaf_points(im), key=str))
        g.setdefault((pts, angles_in(re) | angles_in(im)), {})[at_] = (re, im, st)
    return [list(d.values()) for d in g.values()]


def walk(v):
    if isinstance(v, S_.FV):
        yield v
        for a in v.args:
            yield from walk(a)


def leaf_points(v):
    return {(x.args[0], str(x.args[1])) for x in walk(v) if x.op in ('re', 'im')}


def angles_in(v):
    return frozenset(x.args[0] for x in walk(v) if x.op in ('cos', 'sin'))


def entry_bound(sysname):
    """for what the transform is entered: (largest na+nb or None, functions)"""
    sy = Sys(arith.P, sysname)
    F = sy.kernel('mul_strassen')
    if F is None:
        raise Anchor('mul_strassen of ' + sysname)
    fns = {}
    worst = [0, 0]

    def least(i, S, ps):
        """the smallest number that one of ps is known not to exceed"""
        up = lambda m: any(S.prove(C(m) - p) for p in ps)
        lo, hi = 0, 1 << 60
        if worst[i] is None or not up(hi - 1):
            worst[i] = None
            return
        while lo < hi:
            mid = (lo + hi) // 2
            if up(mid):
                hi = mid
            else:
                lo = mid + 1
        worst[i] = max(worst[i], hi)

    def pack(E, st, x, G, args):
        fns['create_fft_table'] = G
        out = fourier.pack_contract(E, st, x, G, args)
        r = fourier.two_any(st, args[1:]) if len(args) == 3 else None
        if r is None:
            raise Unknown('operands of the table')
        S = st.store
        if not S.dead and not S.infeasible(()):
            least(0, S, [r[0].size + r[1].size])
            least(1, S, [r[0].size, r[1].size])
        if out is None:
            raise Unknown('operands of the table')
        return out

    def stage(name, h):
        def f(E, st, x, G, args):
            fns[name] = G
            return h(E, st, x, G, args)
        return f
    con = dict(contracts_for({'mul_naive'}), **length_contracts(sy.P))
    con['create_fft_table'] = pack
    con['convolute_fft'] = stage('convolute_fft', fourier._stage('pack', 'spec'))
    con['ifft_complex'] = stage('ifft_complex', fourier._stage('spec', 'conv'))
    E = Engine(sy.P, sy.R, contracts=con, budget=250000)
    E.hooks = {'fp_to_int': fourier.conv_int}
    st = new_state(sy.R)
    a, b = digits(sy, st, 'A'), digits(sy, st, 'B')
    E.call_fn(F, [Ptr(('arg', 'R'), 0), a, b], st)
    if worst[0] is not None and worst[1] is not None:
        worst[1] = min(worst[1], worst[0] // 2)
    return F, worst[0], worst[1], fns


def callee(P, F, base):
    for b in F.blocks:
        for x in b:
            if x['op'] in ('call', 'invoke') and x['callee'][0] == 'g':
                G = P.fns.get(x['callee'][1])
                if G is not None and not G.decl and G.q.base == base:
                    return G
    return None


def system_task(sysname):
    """{'bound', 'limit', ...} or {'unknown': why}"""
    P = arith.P
    out = {'fns': []}
    try:
        F, K, short, fns = entry_bound(sysname)
        out['site'] = (F.file, F.line)
        out['digits'] = K
        if not fns:
            out['unused'] = True
            return out
        sy = Sys(P, sysname)
        M2 = (sy.R.B - 1) ** 2
        units = {b: unit_of(G) for b, G in fns.items()}
        unit = max(units.values())
        out['unit'] = unit
        # the largest sum has to be a number of the floating type
        S = None if short is None or short >= 1 << 57 else M2 * short
        if S is None or S > 2 ** 53 / min(units.values()):
            out['bad'] = ('a sum of products reaches %s for %s digits, integers are exact up to 2^%d only: odd sums are off by one or more'
                          % ('2^%.1f' % math.log2(S) if S else 'any value', K if K else 'any number of', 53 - math.log2(min(units.values()))))
            return out
        if K is None:
            raise Unknown('no bound on the digits of both operands')
        if K < 2:
            out.update(bound=0.0, L=0)
            return out
        conv, inv = fns['convolute_fft'], fns['ifft_complex']
        fft = callee(P, conv, 'fft_complex')
        ffi = callee(P, inv, 'fft_complex')
        if fft is None or ffi is None:
            raise Unknown('the transform called by the helpers')
        unit = max(unit, unit_of(fft), unit_of(ffi))
        out['fns'] = [G.name for G in (F, conv, inv, fft, ffi)]
        eta2 = eta1 = 0.0
        for G in {fft.name: fft, ffi.name: ffi}.values():
            E, ws, rs = writes_of(sysname, G, {'fft_complex': same_size})
            gs = groups(ws)
            if not gs:
                raise Unknown('nothing is written by the transform')
            for g in gs:
                a, b = level(g, unit)
                eta2, eta1 = max(eta2, a), max(eta1, b)
        E, ws, rs = writes_of(sysname, conv, {'fft_complex': same_size})
        gs = groups(ws)
        mu = lam = 0.0
        if not gs:
            raise Unknown('no product is written')
        for g in gs:
            for w in g:
                a, b = product([w], unit)
                mu, lam = max(mu, a), max(lam, b)
        # conjugation and scaling by the length
        scale = 0.0
        E, ws, rs = writes_of(sysname, inv, {'fft_complex': same_size})
        for g in groups(ws):
            for re, im, st in g:
                ev = Eval(st, unit)
                for v in (ev.go(re), ev.go(im)):
                    if len(_leaves(v.x)) != 1 or any(len([f for f in m if f[0] != 'inv']) != 1 for m in v.x):
                        raise Unknown('the inverse transform changes elements')
                    scale = max([scale] + [float(k) for k in v.e.values()])
        L = max(1, math.ceil(math.log2(K)))
        u = 2.0 ** -53
        z2 = float(M2 * K)
        eps = math.expm1(L * math.log1p(eta2 * u))          # forward, Euclidean
        back = math.expm1(L * math.log1p(eta1 * u))         # inverse, entry by entry
        # |sum of the products' errors| / n
        prod = (2 * mu * eps * (1 + eps) + mu * eps * eps + 2 * lam * u * (1 + eps) ** 2) * z2
        total = prod + back * (z2 / 2 + prod) + (2 * scale + unit) * u * 1.01 * (S + 1 + prod)
        out.update(bound=total, L=L, eta2=eta2, eta1=eta1, mu=mu, lam=lam, scale=scale)
        # beyond the proved bound: the error to be expected of the largest operands when the roundings of the
        # L levels add up like independent ones (never reported while the bound itself is below one half)
        guess = 1.2 * math.sqrt(L) * u * S
        if total >= 0.5 and guess > 0.55:
            out['bad'] = ('the transform is entered for up to %d digits and sums of products up to 2^%.1f: the bound on their rounding error is %.3g, '
                          'the error to be expected for the largest digits %.2g' % (K, math.log2(S), total, guess))
        return out
    except Anchor:
        raise
    except Unknown as e:
        out['unknown'] = str(e)
        return out
    except arith.ENGERR as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        out['unknown'] = repr(e)
        return out


def c27(rep, P, tmp, here):
    rep.level = 'proof'
    rep.trusted = ['IEEE 754 binary64 arithmetic rounding to nearest, cos and sin of the C library off by at most one unit in the last place',
                   'one iteration of each loop reads and writes the elements that C26 compares with the definition; every transform of length n has log2(n) levels',
                   'model of std::vector and std::complex (engine/vec.py)', 'clang 18 front end, LLVM 18 SROA/mem2reg']
    rep.rules.append('the bound on the accumulated rounding error of one sum, derived from the operations in the code, is below one half for the largest number of digits that reaches the transform')
    rep.rules.append('every sum of products is a number of the floating type; every factor of a product of digits is exact enough for the largest digits')
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    dl = rep.t0 + (840 if deep else 400)
    systems = list(SYSTEMS)
    res = driver.pmap(system_task, [(s,) for s in systems], 150, dl)
    rep.cov['functions'] = set()
    rep.cov['bounds'] = {}
    suspect = []
    for s, r in zip(systems, res):
        what = '%s: the rounding error of a convolution sum stays below one half' % s
        if r is None:
            rep.ob(what, False, 'no answer')
            suspect.append(s)
            continue
        if r[0] == 'ANCHOR' if isinstance(r, tuple) else False:
            raise Anchor(r[1])
        rep.cov['functions'].update(r.get('fns', ()))
        rep.cov['bounds'][s] = {k: r[k] for k in ('digits', 'L', 'eta2', 'eta1', 'mu', 'lam', 'scale', 'bound', 'unknown') if k in r}
        if 'bad' in r:
            rep.ob(what, False, r['bad'])
            rep.violation('C27:range', '%s:%d: mul_strassen: %s (%s)' % (r['site'][0].replace(P.repo, ''), r['site'][1], r['bad'], s),
                          'digit system %s: the transform is entered for up to %s digits; largest digit %d' % (s, r['digits'], Sys(P, s).R.B - 1))
            continue
        ok = r.get('unused') or 'bound' in r and r['bound'] < 0.5
        rep.ob(what, bool(ok), r.get('unknown') or ('bound %.3g for %s digits' % (r['bound'], r['digits']) if 'bound' in r else None))
        if not ok:
            suspect.append(s)
    # factors that are wrong by more than the largest digits forgive
    sh = [(1, 1), (2, 1), (3, 2), (4, 4), (8, 8)] + ([(6, 10), (16, 16), (1, 31)] if deep else [])
    tasks = []
    for s in systems:
        M2 = (Sys(P, s).R.B - 1) ** 2
        K = next((r.get('digits') for t, r in zip(systems, res) if t == s and r), None) or 1 << 60
        for x in sh + ([(16, 16), (32, 32)] if s in suspect else []):
            if sum(x) <= K and s != 'highp':
                tasks.append(('table', x, s, 0.5 / M2))
    for t, r in zip(tasks, driver.pmap(fourier.form_task, tasks, 150, dl)):
        what = '%s: factors of the products of %s and %s digits are off by less than %.2g' % (t[2], t[1][0], t[1][1], t[3])
        if r is None:
            rep.ob(what, False, 'no answer')
            continue
        if r[0] == 'ANCHOR':
            raise Anchor(r[1])
        rep.ob(what, r[0] == 'ok', r[2])
        rep.count('coefficients_compared', r[1])
        if r[0] == 'bad':
            rep.violation('C27:factor', '%s:%d: %s: with the largest digits the sum is off by one half or more (%s)' % (r[3][0].replace(P.repo, ''), r[3][1], r[2], t[2]), what)
