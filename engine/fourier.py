"""The Fourier helpers: length selection (interval and known-bits domain), the
packing of two digit sequences into one complex table, contracts that carry the
convolution of two numbers through the transforms."""
from ops import *
from kproof import KP, attempt, kobj
from vec import get, put, wrote, cxval, mk, vfacts, thrower, ret, empty
import sym as S_
import vec
import lin
from lin import mono_bounds


# ------------------------------------------------------ lengths: bits domain
class Bits:
    """integers of width w between lo and hi whose bits agree with ones/zeros"""
    __slots__ = ('w', 'lo', 'hi', 'ones', 'zeros')

    def __init__(self, w, lo, hi, ones=0, zeros=0):
        m = (1 << w) - 1
        # the common leading bits of an interval are known
        d = lo ^ hi
        k = d.bit_length()
        top = m & ~((1 << k) - 1)
        ones |= lo & top
        zeros |= ~lo & top & m
        self.w, self.ones, self.zeros = w, ones, zeros
        self.lo, self.hi = max(lo, ones), min(hi, m & ~zeros)

    def const(self):
        return self.lo if self.lo == self.hi else None


def _bin(op, a, b, w):
    m = (1 << w) - 1
    if op in ('add', 'sub'):
        lo, hi = (a.lo + b.lo, a.hi + b.hi) if op == 'add' else (a.lo - b.hi, a.hi - b.lo)
        if lo >> w != hi >> w:
            return Bits(w, 0, m)
        return Bits(w, lo & m, hi & m)
    if op == 'or':
        o = a.ones | b.ones
        return Bits(w, max(a.lo, b.lo, o), m & ~(a.zeros & b.zeros), o, a.zeros & b.zeros)
    if op == 'and':
        o = a.ones & b.ones
        return Bits(w, o, min(a.hi, b.hi), o, a.zeros | b.zeros)
    if op == 'xor':
        o = (a.ones & b.zeros) | (a.zeros & b.ones)
        z = (a.ones & b.ones) | (a.zeros & b.zeros)
        return Bits(w, o, m & ~z, o, z)
    k = b.const()
    if k is not None and k < w:
        if op == 'lshr':
            return Bits(w, a.lo >> k, a.hi >> k, a.ones >> k, (a.zeros >> k) | (m & ~(m >> k)))
        if op == 'shl':
            z = ((a.zeros << k) & m) | ((1 << k) - 1)
            if a.hi << k <= m:
                return Bits(w, a.lo << k, a.hi << k, (a.ones << k) & m, z)
            return Bits(w, 0, m, (a.ones << k) & m, z)
    if op == 'mul' and a.hi * b.hi <= m:
        return Bits(w, a.lo * b.lo, a.hi * b.hi)
    if op == 'udiv' and b.lo > 0:
        return Bits(w, a.lo // b.hi, a.hi // b.lo)
    return Bits(w, 0, m)


def _cmp(pred, a, b):
    """True, False or None"""
    if pred in ('eq', 'ne'):
        if a.const() is not None and a.const() == b.const():
            return pred == 'eq'
        if a.hi < b.lo or b.hi < a.lo or a.ones & b.zeros or a.zeros & b.ones:
            return pred == 'ne'
        return None
    if pred in ('ugt', 'ule'):
        r = True if a.lo > b.hi else False if a.hi <= b.lo else None
        return r if pred == 'ugt' or r is None else not r
    if pred in ('ult', 'uge'):
        r = True if a.hi < b.lo else False if a.lo >= b.hi else None
        return r if pred == 'ult' or r is None else not r
    return None


def interpret(F, lo, hi, steps=4000):
    """the value of an integer function of one argument over [lo, hi], or None"""
    w = type_bits(F.args[0]['ty'])
    if len(F.args) != 1 or not w:
        return None
    env = {0: Bits(w, lo, hi)}
    mem = {}
    b, prev = 0, None

    def val(o, ty):
        if o[0] == 'i':
            k = type_bits(ty) or 64
            v = int(o[1]) & ((1 << k) - 1)
            return Bits(k, v, v)
        if o[0] == 'v':
            return env.get(o[1])
        return None
    while steps:
        nxt = None
        blk = F.blocks[b]
        phi = {}
        for x in blk:
            if x['op'] == 'phi':
                for p, o in x['inc']:
                    if p == prev:
                        phi[x['id']] = val(o, x['ty'])
        env.update(phi)
        for x in blk:
            steps -= 1
            op = x['op']
            if op == 'phi':
                continue
            ty = x.get('ty', '')
            w = type_bits(ty)
            V = lambda i, t=None: val(x['ops'][i], t or ty)
            if op in ('add', 'sub', 'or', 'and', 'xor', 'lshr', 'shl', 'mul', 'udiv'):
                a, c = V(0), V(1)
                if a is None or c is None:
                    return None
                env[x['id']] = _bin(op, a, c, w)
            elif op == 'icmp':
                t = x['cty']
                a, c = V(0, t), V(1, t)
                if a is None or c is None:
                    return None
                r = _cmp(x['pred'], a, c)
                env[x['id']] = Bits(1, 0, 1) if r is None else Bits(1, int(r), int(r))
            elif op in ('zext', 'freeze'):
                a = V(0)
                if a is None:
                    return None
                env[x['id']] = Bits(w, a.lo, a.hi, a.ones, a.zeros)
            elif op == 'trunc':
                a = V(0)
                if a is None:
                    return None
                m = (1 << w) - 1
                env[x['id']] = Bits(w, a.lo, a.hi) if a.hi <= m else Bits(w, 0, m, a.ones & m, a.zeros & m)
            elif op == 'select':
                c = V(0, 'i1')
                if c is None or c.const() is None:
                    return None
                env[x['id']] = V(1) if c.const() else V(2)
            elif op == 'br':
                if len(x['succ']) == 1:
                    nxt = x['succ'][0]
                else:
                    c = val(x['ops'][0], 'i1')
                    if c is None or c.const() is None:
                        return None
                    nxt = x['succ'][0] if c.const() else x['succ'][1]
            elif op == 'ret':
                return val(x['ops'][0], F.ret) if x['ops'] else None
            elif op in ('call', 'invoke') and x['callee'][0] == 'g' and x['callee'][1].startswith('llvm.') and ty == 'void':
                continue
            else:
                return None
        if nxt is None:
            return None
        prev, b = b, nxt
    return None


def length_contracts(P, top=62):
    """contracts of helpers that round a length up to a power of two or test for
    one, decided on every interval between consecutive powers of two"""
    con = {}
    for F in P.fns.values():
        if F.decl or not P.in_repo(F) or len(F.args) != 1 or type_bits(F.args[0]['ty']) != 64 or F.q.cls:
            continue
        if 'sret' in F.args[0]:
            continue
        up = test = True
        for t in range(0, top):
            p, n = 1 << t, 1 << (t + 1)
            r = interpret(F, p, p)
            u = interpret(F, p + 1, n - 1) if n - 1 > p else None
            if r is None or n - 1 > p and u is None:
                up = test = False
                break
            up = up and r.const() == p and (u is None or u.const() == n)
            test = test and r.const() == 1 and (u is None or u.const() == 0)
            if not (up or test):
                break
        z = interpret(F, 0, 0)
        if z is None or z.const() != 0:
            up = test = False
        if up:
            con[F.q.base] = _round_up
        elif test:
            con[F.q.base] = _is_pow2
    return con


def ispow2(st, n):
    n = st.store.canon(n)
    if n.is_const():
        v = int(n.cval())
        return v >= 0 and v & (v - 1) == 0
    for k, p in st.tags:
        if k == 'pow2' and (p == n or st.store.prove_eq(p - n)):
            return True
    return False


def above(st, r, n):
    """r >= n, hence r >= every summand of n"""
    n = st.store.canon(n)
    if len(n.t) > 1 and all(c > 0 and (not m or mono_bounds(m)[0] is not None and mono_bounds(m)[0] >= 0) for m, c in n.t.items()):
        for m, c in n.t.items():
            if m:
                st.store.add_ge(r - Poly({m: 1}))


def _round_up(E, st, x, G, args):
    n = args[0]
    if G is None or len(args) != 1 or not isinstance(n, Poly) or not st.store.prove(C(1 << 61) - n) or not st.store.prove(n):
        return None
    out = []
    for s, z in E.fork_eq(st, n):
        if z:
            out.append((s, 'ret', ZERO))
            continue
        s.store.add_ge(n - 1)
        for s2, one in E.fork(s, ONE - n):
            if one:
                out.append((s2, 'ret', ONE))
                continue
            r = Poly.sym(fresh('pow2', 'i', 0, 1 << 62))
            s2.store.add_ge(r - n)
            s2.store.add_ge(n * 2 - 2 - r)
            above(s2, r, n)
            s2.tags = s2.tags + (('pow2', r),)
            out.append((s2, 'ret', r))
    return out


def _is_pow2(E, st, x, G, args):
    n = args[0]
    if G is None or len(args) != 1 or not isinstance(n, Poly) or not st.store.prove(C(1 << 61) - n) or not st.store.prove(n):
        return None
    out = []
    for s, z in E.fork_eq(st, n):
        if z:
            out.append((s, 'ret', ZERO))
            continue
        s.store.add_ge(n - 1)
        if ispow2(s, n):
            out.append((s, 'ret', ONE))
            continue
        t = s.copy()
        t.tags = t.tags + (('pow2', n),)
        s.store.add_ge(n - 3)
        out += [(t, 'ret', ONE), (s, 'ret', ZERO)]
    return out


# ------------------------------------------------------------------- packing
def find(P, base, elem=None):
    """instantiation of a Fourier helper, for one digit type where it has one"""
    for F in P.fns.values():
        if not F.decl and P.in_repo(F) and F.q.base == base:
            ps = split_top(F.q.params)
            if elem is None or ps and ps[0].startswith('std::vector<') and first_vec(ps[0]) == elem:
                return F
    return None


def shadow(k, part):
    return (('sh', part, k[0]), k[1])


def push_shadow(E, st, k, c, arg, x):
    """a complex value was appended: its parts as digits of two sequences"""
    for i, part in enumerate(('re', 'im')):
        sk = shadow(k, part)
        sc = st.conts.get(sk)
        if sc is None or sc.kind != 'digit':
            continue
        v = cxval(E, st, arg, c.esize // 2)[i]
        if v.op == 'int':
            v = v.args[0]
        elif v.op == 'const' and v.args[0] == int(v.args[0]):
            v = C(int(v.args[0]))
        else:
            v = None
        if v is None or not st.store.prove(v) or not st.store.prove(C(sc.M) - v):
            put(st, sk, vec.havoc_cont(E, st, sc))
            continue
        v = st.store.canon(v)
        n = sc.size
        of = sc.of
        if v != ZERO and not st.store.prove(of - n - 1):
            of = n + 1
        st.conts[sk] = sc._replace(size=st.store.canon(n + 1), V=st.store.canon(sc.V + E.R.W(n) * v), dm=sc.dm + ((n, v),), of=of, ver=sc.ver + 1, tag=None)
        vfacts(E, st, sk, (n, v))


def prove_pack(sy, con, budget=250000):
    """create_fft_table: real parts are one operand, imaginary parts the other,
    padded with zeros to a power of two that holds the product"""
    kp = KP('create_fft_table')
    F = find(sy.P, 'create_fft_table', sy.elem)
    if F is None:
        kp.err = 'absent'
        return kp
    kR = (('arg', 'R'), 0)

    def setup(st, ctx):
        a, b = digits(sy, st, 'A', None, False), digits(sy, st, 'B', None, False)
        ctx['a'], ctx['b'] = st.conts[kobj(sy, 'A')], st.conts[kobj(sy, 'B')]
        st.store.add_ge(C(1 << 60) - ctx['a'].size - ctx['b'].size)
        for part in ('re', 'im'):
            st.conts[shadow(kR, part)] = empty('digit', sy.M, sy.es)
        return [Ptr(('arg', 'R'), 0), a, b]

    def goals(E, s, k, v, ctx):
        c = s.conts.get(kR)
        a, b = ctx['a'], ctx['b']
        S = s.store
        if k != 'ret' or c is None or c.kind != 'cx':
            return {'packed': False}
        re, im = s.conts[shadow(kR, 're')], s.conts[shadow(kR, 'im')]
        return {'packed': bool(re.V is not None and im.V is not None and prove_eq(s, re.V - a.V) and prove_eq(s, im.V - b.V) and S.prove_eq(re.size - c.size) and S.prove_eq(im.size - c.size)),
                'room': S.prove(c.size - a.size - b.size), 'power of two': ispow2(s, c.size)}
    return attempt(sy, F, setup, goals, con, (False,), kp, budget, hooks={'cx_push': push_shadow})


def pack_contract(E, st, x, G, args):
    if len(args) != 3:
        return None
    r = two_any(st, args[1:])
    k = vec.ckey(args[0])
    if r is None or k is None or G is None:
        return None
    c1, c2 = r
    if c1.V is None or c2.V is None or not st.store.prove(C(1 << 60) - c1.size - c2.size):
        return None
    out = thrower(E, st, x, 'allocation')
    es = G.args and 8 if 'float' in G.dem and 'double' not in G.dem else 16
    n = Poly.sym(fresh('nfft', 'i', 0, 1 << 61))
    d = mk(st, 'fft', 'cx', None, es, n)
    st.store.add_ge(n - c1.size - c2.size)
    st.store.add_ge((c1.size + c2.size) * 2 - n)
    above(st, n, c1.size + c2.size)
    st.tags = st.tags + (('pow2', n),)
    st.conts[k] = d._replace(tag=('pack', c1.V, c1.size, c2.V, c2.size))
    wrote(st, k)
    return out + [(st, 'ret', None)]


def two_any(st, args):
    r = [get(None, st, a)[1] for a in args]
    return r if all(c is not None and c.kind == 'digit' for c in r) else None


def _stage(need, give):
    def h(E, st, x, G, args):
        if len(args) != 1:
            return None
        k, c = get(None, st, args[0])
        if c is None or c.kind != 'cx' or not ispow2(st, c.size):
            return None
        out = thrower(E, st, x, 'allocation')
        for t, kind, v in out:
            put(t, k, c._replace(tag=None, elems=None))
        tag = None
        if c.tag is not None and c.tag[0] == need:
            tag = (give,) + c.tag[1:]
            if give == 'conv':
                V1, n1, V2, n2 = c.tag[1:5]
                M = None
                ct = lin.Content('conv', c.size, None, False, digits=False)
                # no digit of the product sequence is larger than this
                st.store.add_eq(ct.V - st.store.canon(V1 * V2))
                # both numbers are below the weight of their length
                if st.store.prove(c.size - n1 - n2):
                    st.store.add_ge(E.R.W(c.size) - 1 - ct.V)
                tag = ('conv', ct, n1, n2)
                # a carry out of the sums is not more than one sum
                m2 = (E.R.B - 1) ** 2
                E.extra_inv = [p for p in (st.store.canon(n1 * m2), st.store.canon(n2 * m2)) if not p.is_const()]
        put(st, k, c._replace(tag=tag, elems=None))
        wrote(st, k)
        return out + [(st, 'ret', None)]
    return h


def same_size(E, st, x, G, args):
    """a transform in place: same number of elements"""
    if len(args) != 1:
        return None
    k, c = get(None, st, args[0])
    if c is None or c.kind != 'cx':
        return None
    out = thrower(E, st, x, 'allocation')
    for t, kind, v in out:
        put(t, k, c._replace(tag=None, elems=None))
        wrote(t, k)
    put(st, k, c._replace(tag=None, elems=None))
    wrote(st, k)
    return out + [(st, 'ret', None)]


def conv_int(E, st, v, w, inst):
    """integer made of one element of the convolution"""
    if not isinstance(v, S_.FV) or v.op not in ('floor', 'round', 'rint', 'nearbyint', 'lround', 'llround'):
        return None
    x, how = v.args[0], v.op
    if how == 'floor':
        if not (isinstance(x, S_.FV) and x.op == 'fadd' and len(x.args) == 2):
            return None
        a, b = x.args
        if a.op == 'const':
            a, b = b, a
        if b.op != 'const' or b.args[0] != 0.5:
            return None
        x = a
    if not (isinstance(x, S_.FV) and x.op == 're' and isinstance(x.args[0], tuple) and x.args[0][0] == 'conv'):
        return None
    tag, idx = x.args
    ct, n1, n2 = tag[1:4]
    S = st.store
    if not S.prove(idx) or not S.prove(ct.size - idx - 1):
        return None
    d = S.canon(E.R.dig(ct, idx))
    m2 = E.R.B - 1
    S.add_ge(d)
    S.add_ge(n1 * (m2 * m2) - d)
    S.add_ge(n2 * (m2 * m2) - d)
    # a prefix of the sums is not more than the whole
    S.add_ge(ct.V - E.R.P(ct, idx + 1))
    E.oblig('fptoint', st, C((1 << w) - 1) - d, inst, 'the rounded value fits the integer type')
    return [(st, d)]


def strassen_contracts(con):
    con = dict(con)
    con['create_fft_table'] = pack_contract
    con['convolute_fft'] = _stage('pack', 'spec')
    con['ifft_complex'] = _stage('spec', 'conv')
    return con


# ------------------------------------------------------------------ exact forms
# The helpers run on containers of symbolic complex numbers of a fixed length;
# every element of the result is then a polynomial in the inputs with floating
# coefficients, compared coefficient by coefficient with the definition.
import cmath, math
TOL = 1e-9


def cx_input(st, name, values):
    k = (('arg', name), 0)
    st.conts[k] = empty('cx', None, 16)._replace(size=C(len(values)), elems=tuple(values))
    return Ptr(*k)


def symbols(n, at=None):
    """n complex inputs; zero but at the given positions"""
    out, syms = [], {}
    for i in range(n):
        if at is None or i in at:
            a, b = Poly.sym(fresh('re%d' % i, 'i')), Poly.sym(fresh('im%d' % i, 'i'))
            syms[i] = (a, b)
            out.append((S_.FV('pf', a), S_.FV('pf', b)))
        else:
            out.append((S_.FV('const', 0.0), S_.FV('const', 0.0)))
    return out, syms


def differs(p, q, tol):
    """a monomial whose coefficients differ, or None; p may be None"""
    for m in set(p.t) | set(q.t):
        x, y = float(p.t.get(m, 0)), float(q.t.get(m, 0))
        if not abs(x - y) <= tol * max(1.0, abs(y)):
            return m, x, y
    return None


def dft(syms, n, k, sign, scale=1.0):
    re, im = {}, {}
    for j, (a, b) in syms.items():
        w = cmath.exp(sign * 2j * cmath.pi * (j * k % n) / n) * scale
        (ma,), (mb,) = a.t, b.t
        re[ma], re[mb] = w.real, -w.imag
        im[ma], im[mb] = w.imag, w.real
    return Poly(re), Poly(im)


def plain_run(sysname, F, args, budget):
    sy = Sys(arith_P(), sysname)
    E = Engine(sy.P, sy.R, budget=budget)
    E.peel = 1 << 20
    st = new_state(sy.R)
    a = args(sy, st)
    return sy, E, E.call_fn(F, a, st)


def arith_P():
    import arith
    return arith.P


def result(E, rs):
    """(state, why not)"""
    live = [(s, k, v) for s, k, v in rs if not s.store.dead]
    for o in E.obs.values():
        if not o.ok and any(not s.inx for s, p in o.bad):
            return None, 'the run leaves the containers (%s at line %d)' % (o.text, o.site[1])
    if len(live) != 1 or live[0][1] != 'ret':
        return None, 'outcomes: %s' % ', '.join(k for s, k, v in live)
    if live[0][0].inx:
        return None, 'not tracked exactly'
    return live[0][0], None


def elems_of(s, k):
    c = s.conts.get(k)
    if c is None or c.kind != 'cx' or c.elems is None:
        return None
    out = []
    for a, b in c.elems:
        a, b = vec.as_pf(a), vec.as_pf(b)
        if a is None or b is None:
            return None
        out.append((a, b))
    return out


def form_task(kind, n, extra, tol=TOL):
    """('ok' | 'bad' | 'none', number of coefficients, message, site)"""
    sysname = extra if kind == 'table' else SYSTEMS_[0]
    P = arith_P()
    kX = (('arg', 'X'), 0)
    coeffs = 0
    if kind in ('fft', 'ifft'):
        F = find(P, kind + '_complex')
        if F is None:
            raise Anchor('no instantiation of %s_complex' % kind)
        vals, syms = symbols(n, extra)
        sy, E, rs = plain_run(sysname, F, lambda sy, st: [cx_input(st, 'X', vals)], 10 ** 8)
        s, why = result(E, rs)
        if s is None:
            return 'none', 0, why, None
        el = elems_of(s, kX)
        if el is None:
            return 'none', 0, 'the result is not a linear form of the input', None
        if len(el) != n:
            return 'bad', 0, 'the result of %s on %d elements has %d' % (F.q.base, n, len(el)), (F.file, F.line)
        for k in range(n):
            want = dft(syms, n, k, -1) if kind == 'fft' else dft(syms, n, k, 1, 1.0 / n)
            for part, g, w in zip(('real', 'imaginary'), el[k], want):
                coeffs += len(w.t)
                d = differs(g, w, tol)
                if d is not None:
                    return 'bad', coeffs, 'length %d: %s part of element %d depends on %s with factor %.12g instead of %.12g' % (n, part, k, mono(d[0]), d[1], d[2]), (F.file, F.line)
        return 'ok', coeffs, None, None
    # table: n = (digits of a, digits of b)
    na, nb = n
    sy = Sys(P, sysname)
    T = find(P, 'create_fft_table', sy.elem)
    if T is None:
        raise Anchor('no instantiation of create_fft_table')
    E = Engine(sy.P, sy.R, budget=10 ** 8)
    E.peel = 1 << 20
    st = new_state(sy.R)
    a = digits(sy, st, 'A', na, False)
    b = digits(sy, st, 'B', nb, False)
    ca, cb = st.conts[kobj(sy, 'A')], st.conts[kobj(sy, 'B')]
    da, db = [[dict(c.dm)[C(i)] for i in range(c.size.cval())] for c in (ca, cb)]
    s = st
    for F in [T] + [find(P, x) for x in ('convolute_fft', 'ifft_complex')]:
        if F is None:
            raise Anchor('no instantiation of a Fourier helper')
        rs = E.call_fn(F, [Ptr(*kX)] + ([a, b] if F is T else []), s)
        s, why = result(E, rs)
        if s is None:
            return 'none', 0, '%s: %s' % (F.q.base, why), None
    el = elems_of(s, kX)
    if el is None:
        return 'none', 0, 'the result is not a polynomial of the digits', None
    want = [ZERO] * (na + nb)
    for i, x in enumerate(da):
        for j, y in enumerate(db):
            want[i + j] = want[i + j] + x * y
    C_ = find(P, 'convolute_fft')
    for i in range(max(len(el), na + nb - 1 if na and nb else 0)):
        w = want[i] if i < len(want) else ZERO
        g = el[i][0] if i < len(el) else ZERO
        w = s.store.canon(w)
        coeffs += max(1, len(w.t))
        d = differs(s.store.canon(g), w, tol)
        if d is not None:
            return 'bad', coeffs, 'digit sequences of %d and %d: entry %d of the convolution has the factor %.12g instead of %.12g on %s' % (na, nb, i, d[1], d[2], mono(d[0])), (C_.file, C_.line)
    return 'ok', coeffs, None, None


SYSTEMS_ = list(SYSTEMS)


def mono(m):
    return str(Poly({m: 1})) if m else 'the constant'


def form_tasks(deep):
    t = [('fft', 1 << i, None) for i in range(0, 8 if deep else 7)]
    for i in range(7, 13 if deep else 11):
        n = 1 << i
        t.append(('fft', n, frozenset((1, n // 2 + 1, n - 1, n // 4 + n // 8 + 2))))
    t += [('fft', 0, None)]
    t += [('ifft', 1 << i, None) for i in range(0, 6)] + [('ifft', 256, frozenset((1, 77, 254)))]
    sh = [(1, 1), (2, 1), (1, 3), (3, 2), (4, 4), (7, 1), (2, 6), (5, 4), (8, 8), (1, 0), (0, 2)]
    if deep:
        sh += [(i, j) for i in range(1, 13) for j in range(1, 13) if (i, j) not in sh] + [(16, 16), (9, 23), (20, 3)]
    for s in SYSTEMS_:
        t += [('table', x, s) for x in sh]
    return t


def prove_forms(sysname):
    """the transforms compute what the contracts of their callers say"""
    kp = KP('transforms')
    t0 = time.time()
    for t in form_tasks(False):
        if t[0] == 'table' and t[2] != sysname or t[0] != 'table' and t[1] > 64:
            continue
        r = form_task(*t)
        kp.goals['%s of length %s' % (t[0], t[1])] = r[0] == 'ok'
        if r[0] != 'ok':
            kp.err = r[2]
            break
    kp.time = time.time() - t0
    return kp


def c26(rep, P, tmp, here):
    import driver
    rep.level = 'other'
    rep.explanation = 'Abstract interpretation over symbolic complex numbers: for each listed length, all values of the input at once; packing into the table for every length.'
    rep.trusted = ['model of std::vector and std::complex (engine/vec.py)', 'clang 18 front end, LLVM 18 SROA/mem2reg',
                   'beyond the lengths examined, the helpers treat all powers of two alike']
    rep.rules.append('on containers of symbolic values every result is a linear (bilinear) form of the input; each factor must agree with the definition within %g' % TOL)
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    tasks = form_tasks(deep)
    dl = rep.t0 + (840 if deep else 400)
    order = sorted(tasks, key=lambda t: -(t[1] if isinstance(t[1], int) else 0))
    res = driver.pmap(form_task, order, 700 if deep else 150, dl)
    for t, r in zip(order, res):
        what = {'fft': 'forward transform of length %s', 'ifft': 'inverse transform of length %s', 'table': 'convolution table of %s digits'}[t[0]] % (t[1],) + (' (%s)' % t[2] if t[0] == 'table' else ' (inputs at %s)' % sorted(t[2]) if t[2] else '')
        if r is None:
            rep.ob(what, False, 'no answer')
            continue
        if r[0] == 'ANCHOR':
            raise Anchor(r[1])
        rep.ob(what, r[0] == 'ok', r[2])
        rep.count('coefficients_compared', r[1])
        if r[0] == 'bad':
            rep.violation(t[0], '%s:%d: %s' % (r[3][0].replace(P.repo, ''), r[3][1], r[2]), what)
    for s in SYSTEMS_:
        kp = prove_pack(Sys(P, s), dict(contracts_for(set()), **length_contracts(P)))
        for g, ok in kp.goals.items():
            rep.ob('%s: create_fft_table: %s (any length)' % (s, g), ok)
