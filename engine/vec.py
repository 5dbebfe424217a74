"""Abstract semantics of std::vector, iostream, exceptions and the few libm
functions the library uses."""
from lin import *
from ir import *
import sym as S_

NOOPS = ('llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.assume',
         'llvm.invariant', 'llvm.donothing', 'llvm.prefetch')


def mk(st, name, kind, M, esize, size, canonical=False, symsize=True):
    """container with arbitrary content"""
    c = Content(name, size, M, canonical)
    if kind != 'digit':
        c.digits = False
    st.store.add_ge(size)
    st.store.add_ge(C(S_.SIZEMAX) - size)
    return S_.Cont(kind, M, esize, size, c.V, c, ZERO, ZERO, size, ZERO, (), True, None, 0, None)


def empty(kind, M, esize):
    return S_.Cont(kind, M, esize, ZERO, ZERO, None, ZERO, ZERO, ZERO, ZERO, (), True, None, 0, () if kind in ('cx', 'fp') else None)


def cont_kind(F, q):
    t = S_.split_top(q.cargs)
    return S_.elem_info(t[0]) if t else ('other', None, None)


def ckey(p):
    if isinstance(p, S_.Ptr):
        return (p.obj, p.off)
    return None


def get(E, st, p, info=None):
    k = ckey(p)
    if k is None or k not in st.conts:
        if k is not None and info is not None:
            E.inexact(st, 'unknown container')
            n = Poly.sym(fresh('size', 'i', 0, S_.SIZEMAX))
            st.conts[k] = mk(st, 'unk', info[0], info[1], info[2], n)
            return k, st.conts[k]
        return k, None
    return k, st.conts[k]


def put(st, k, c):
    st.conts[k] = c._replace(ver=c.ver + 1)


def wrote(st, k, what='w'):
    st.events = st.events + ((what, k[0], k[1]),)


# ------------------------------------------------------------------ elements
def read_digit(E, st, k, idx):
    """[(state, digit poly)] for an index known to be in range"""
    c = st.conts[k]
    R = E.R
    S = st.store
    idx = S.canon(idx)
    maybe = False
    ci = idx.cval() if idx.is_const() else None
    for i, d in c.dm:
        if ci is not None and i.is_const():
            if i.cval() == ci:
                return [(st, S.canon(d))]
            continue
        df = S.canon(i - idx)
        if df.is_const():
            if df.cval() == 0:
                return [(st, S.canon(d))]
        else:
            if S.prove_eq(df):
                return [(st, S.canon(d))]
    # digits from `of` on and below `ou` are the base content's own, zero from `bl` on
    hi = S.prove(idx - c.of)
    if hi or S.prove(c.ou - idx - 1):
        if c.base is None or S.prove(idx - c.bl):
            if hi:
                return [(st, ZERO)]
        elif S.canon(c.bl - c.base.size) == ZERO or S.prove(c.bl - idx - 1):
            if hi or S.prove(c.bl - idx - 1):
                return [(st, S.canon(R.dig(c.base, idx)))]
    E.computed.add(k)
    d = Poly.sym(fresh('dig', 'i', 0, c.M))
    E.inexact(st, 'digit of a computed number')
    if c.V is not None:
        S.add_ge(c.V - R.W(idx) * d)
        if not S.dead and c.kind == 'digit':
            # the other digits are smaller than one unit of this one
            n1 = S.canon(c.size - idx - 1)
            if n1 == ZERO:
                S.add_ge(R.W(idx) * (d + 1) - 1 - c.V)
    put2 = c._replace(dm=c.dm + ((idx, d),))
    st.conts[k] = put2
    return [(st, d)]


def rebase(E, st, k):
    """give the digits of a computed number names"""
    c = st.conts[k]
    ct = Content('N%s' % (k[0][-1] if isinstance(k[0], tuple) else k[0]), c.size, c.M)
    st.store.add_eq(ct.V - c.V)
    for i, d in c.dm:
        st.store.add_eq(E.R.dig(ct, st.store.canon(i)) - d)
    st.conts[k] = c._replace(base=ct, of=ZERO, ou=ZERO, bl=c.size, dm=(), ver=c.ver + 1)


def write_digit(E, st, k, idx, x, inst):
    """[states]"""
    out = []
    for s, old in read_digit(E, st, k, idx):
        c = s.conts[k]
        S = s.store
        R = E.R
        if c.kind == 'digit':
            E.oblig('digit-range', s, C(c.M) - x, inst, 'stored digit is smaller than the radix')
            if s.store.dead:
                continue
        x = S.canon(x)
        keep = []
        ci = S.canon(idx)
        for i, d in c.dm:
            if i.is_const() and ci.is_const() and i.cval() != ci.cval():
                keep.append((i, d))
                continue
            df = S.canon(i - idx)
            if (df.is_const() and df.cval() != 0) or S.prove(df - 1) or S.prove(-df - 1):
                keep.append((i, d))
        V = S.canon(c.V + R.W(idx) * (x - old)) if c.V is not None else None
        # region that still holds the original digits
        for s, past in E.fork(s, c.of - idx - 1):
            of = c.of if past else idx + 1
            for s2, low in E.fork(s, idx - c.ou):
                ou = c.ou if low else idx
                s2.conts[k] = c._replace(V=V, of=s2.store.canon(of), ou=s2.store.canon(ou),
                                         dm=tuple(keep) + ((idx, x),), ver=c.ver + 1, tag=None)
                vfacts(E, s2, k, (idx, x))
                wrote(s2, k)
                out.append(s2)
    return out


def vfacts(E, s, k, wd=None):
    """bounds on the value implied by the digits being in range"""
    c = s.conts[k]
    if c.kind != 'digit' or c.V is None or E.peel:
        return
    S = s.store
    R = E.R
    V = S.canon(c.V)
    if V.is_const():
        return
    S.add_ge(V)
    S.add_ge(R.W(c.size) - 1 - V)
    if wd:
        S.add_ge(V - R.W(wd[0]) * wd[1])


def bounds(E, st, p, inst, what='digit access inside the stored digits'):
    c = st.conts[p.c]
    ok = E.oblig('bounds', st, c.size - p.idx - 1, inst, what)
    if st.store.dead:
        return False
    ok2 = E.oblig('bounds', st, p.idx, inst, what)
    return not st.store.dead


def elem_load(E, st, p, size, ty, inst):
    c = st.conts.get(p.c)
    if c is None:
        E.inexact(st, 'load from unknown container')
        return [(st, E.fresh_of(ty, 'mem'))]
    idx = p.idx
    if c.kind == 'fixed':      # initializer_list backing array: most significant first
        if not bounds(E, st, p, inst, 'initializer list access in range'):
            return []
        return read_digit(E, st, p.c, c.size - 1 - idx)
    if not bounds(E, st, p, inst):
        return []
    if c.kind == 'digit' and p.sub == 0 and size == c.esize:
        return read_digit(E, st, p.c, idx)
    if c.kind == 'cx':
        return [(st, cx_elem(E, st, c, idx, p.sub // (c.esize // 2)))]
    if c.kind == 'fp' and p.sub == 0:
        i = st.store.canon(idx)
        if c.elems is not None and i.is_const():
            return [(st, c.elems[i.cval()])]
        E.inexact(st, 'element of a float container')
        return [(st, S_.FV('opaque', fresh('fp').id))]
    E.inexact(st, 'load of part of an element')
    return [(st, E.fresh_of(ty, 'elem'))]


def cx_elem(E, st, c, idx, part):
    i = st.store.canon(idx)
    if c.elems is not None and i.is_const() and 0 <= i.cval() < len(c.elems):
        return c.elems[i.cval()][part]
    return S_.FV('re' if part == 0 else 'im', c.tag if c.tag is not None else ('cont', c.ver, id(c)), st.store.canon(idx))


def cx_set(E, st, p, v, part=None):
    """overwrite a complex element, or one part of it"""
    h = E.hooks.get('cx_set')
    if h:
        h(E, st, p, v, part)
    c = st.conts[p.c]
    i = st.store.canon(p.idx)
    if c.elems is not None and i.is_const() and 0 <= i.cval() < len(c.elems):
        el = list(c.elems)
        if part is None:
            el[i.cval()] = v
        else:
            z = list(el[i.cval()])
            z[part] = v
            el[i.cval()] = tuple(z)
        put(st, p.c, c._replace(elems=tuple(el), tag=None))
    else:
        put(st, p.c, c._replace(elems=None, tag=None))
    wrote(st, p.c)


def opaque():
    return S_.FV('opaque', fresh('fp').id)


def cxval(E, st, p, fs=8):
    """(re, im) a complex argument refers to"""
    if isinstance(p, S_.EPtr):
        c = st.conts.get(p.c)
        if c is None or c.kind != 'cx':
            return opaque(), opaque()
        return cx_elem(E, st, c, p.idx, 0), cx_elem(E, st, c, p.idx, 1)
    if isinstance(p, S_.Ptr):
        a = st.mem.get((p.obj, p.off))
        b = st.mem.get((p.obj, p.off + fs))
        z = lambda v: v[0] if v and isinstance(v[0], S_.FV) else (S_.FV('const', 0.0) if v and v[0] == ZERO else opaque())
        return z(a), z(b)
    if isinstance(p, S_.Agg) and len(p.items) == 2:
        return p.items
    return opaque(), opaque()


def elem_store(E, st, p, v, size, inst):
    c = st.conts.get(p.c)
    if c is None:
        E.inexact(st, 'store to unknown container')
        return [st]
    if not bounds(E, st, p, inst):
        return []
    if c.kind == 'digit' and p.sub == 0 and size == c.esize:
        out = []
        for s, x in E.norm(st, E.as_int(st, v), size * 8):
            out += write_digit(E, s, p.c, s.store.canon(p.idx), x, inst)
        return out
    if c.kind == 'cx':
        cx_set(E, st, p, v, part=p.sub // (c.esize // 2))
        return [st]
    if c.kind == 'fp' and p.sub == 0:
        i = st.store.canon(p.idx)
        if c.elems is not None and i.is_const():
            el = list(c.elems)
            el[i.cval()] = v
            put(st, p.c, c._replace(elems=tuple(el)))
        else:
            put(st, p.c, c._replace(elems=None))
        wrote(st, p.c)
        return [st]
    E.inexact(st, 'store to part of an element')
    wrote(st, p.c)
    put(st, p.c, havoc_cont(E, st, c))
    return [st]


def havoc_cont(E, st, c, size=None):
    if c.kind not in ('digit', 'cx', 'fp', 'fixed'):
        return c
    n = Poly.sym(fresh('size', 'i', 0, S_.SIZEMAX)) if size is None else size
    d = mk(st, 'hv', c.kind, c.M, c.esize, n)
    return d._replace(ver=c.ver + 1)


def havoc_ptr(E, st, a):
    if isinstance(a, S_.EPtr):
        if a.c in st.conts:
            put(st, a.c, havoc_cont(E, st, st.conts[a.c]))
            wrote(st, a.c)
    elif isinstance(a, S_.Ptr) and a.obj[0] != 'g':
        for k in list(st.conts):
            if k[0] == a.obj:
                put(st, k, havoc_cont(E, st, st.conts[k]))
                wrote(st, k)
        for k in list(st.mem):
            if k[0] == a.obj:
                v, sz = st.mem[k]
                if isinstance(v, Poly):
                    st.mem[k] = (Poly.sym(fresh('hv', 'i', 0, (1 << (8 * sz)) - 1)), sz)
                else:
                    st.mem[k] = (S_.UNDEF, sz)


# ------------------------------------------------------------------ floats
def fp_to_int(E, st, v, w, inst):
    if 'overflow' not in S_.WATCH:
        return fp_to_int1(E, st, v, w, inst)
    out = fp_to_int1(E, st, v, w, inst)
    lo, hi = (0, (1 << w) - 1) if inst['op'] == 'fptoui' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    for s, r in out:
        if isinstance(r, Poly) and 'floating-point value' not in s.inx:
            for g in (C(hi) - r, r - lo):
                E.oblig('fptoint', s, g, inst, 'the floating value fits the integer type')
        else:
            E.oblig('fptoint', s, False, inst, 'the floating value fits the integer type')
    return out


def fp_to_int1(E, st, v, w, inst):
    """value of a floating expression known to be an exact integer"""
    h = E.hooks.get('fp_to_int')
    if h:
        r = h(E, st, v, w, inst)
        if r is not None:
            return r
    if isinstance(v, S_.FV):
        if v.op == 'int':
            return [(st, v.args[0])]
        if v.op == 'const':
            return [(st, C(int(v.args[0])))]
        x, half = v, ''
        if v.op in ('floor', 'round', 'rint', 'nearbyint', 'trunc', 'llround', 'lround'):
            x, half = v.args[0], v.op
        if x.op == 'int':
            return [(st, x.args[0])]
        if x.op in ('pf', 'const'):
            p = as_pf(x)
            r = {}
            exact = True
            for m, c in p.t.items():
                k = round(c - 0.5) if not m and half in ('floor', 'trunc', '') else round(c)
                if not m and half in ('floor', 'trunc', ''):
                    margin = min(c - (k), k + 1 - c) if k <= c < k + 1 else 0
                    k0 = int(_floor(c))
                    margin = min(c - k0, k0 + 1 - c)
                    k = k0
                elif not m:
                    margin = 0.5 - abs(c - k)
                else:
                    margin = 0.5
                    if abs(c - k) > 1e-6 * max(1.0, abs(c)):
                        exact = False
                if not m:
                    margin0 = margin
                if k:
                    r[m] = k
            if () not in p.t:
                margin0 = 0.5 if half in ('round', 'rint', 'nearbyint', 'llround', 'lround') else 0.0
            if exact:
                if len(p.t) - (() in p.t) or x.op == 'pf':
                    E.oblig('rounding', st, margin0 > 0.2, inst, 'the sum is rounded to the nearest integer')
                if margin0 <= 1e-6:
                    # rounding noise decides between two neighbours
                    E.inexact(st, 'rounding of a floating-point sum')
                return [(st, Poly(r) if r else ZERO)]
    return _fpi(E, st, v, w)


from math import floor as _floor


def as_pf(v):
    """floating value as a polynomial with floating coefficients, or None"""
    if not isinstance(v, S_.FV):
        return None
    if v.op == 'const':
        return Poly({(): float(v.args[0])}) if v.args[0] else ZERO
    if v.op in ('pf', 'int'):
        return v.args[0]
    return None


def mk_pf(p):
    t = {m: float(c) for m, c in p.t.items() if abs(c) > 1e-13}
    if not t:
        return S_.FV('const', 0.0)
    if len(t) == 1 and () in t:
        return S_.FV('const', t[()])
    return S_.FV('pf', Poly(t))


def _fpi(E, st, v, w):
    E.inexact(st, 'floating-point value')
    return [(st, Poly.sym(fresh('fpi', 'i', 0, (1 << w) - 1)))]


# ------------------------------------------------------------------ calls
def ret(st, v=None):
    return [(st, 'ret', v)]


def thrower(E, st, inst, what):
    """the exceptional outcome of an allocating call"""
    if not E.exc:
        return []
    t = st.copy()
    t.events = t.events + (('throw', what),)
    return [(t, 'exc', ('exc', what, tuple(inst.get('loc') or ())))]


def std_call(E, st, x, G, q, args, frame):
    b = q.base
    if b.startswith('llvm.'):
        if b.startswith(NOOPS):
            return ret(st)
        if b.startswith('llvm.memset'):
            p, v, n = args[0], args[1], args[2]
            if isinstance(p, S_.Ptr) and p.obj[0] != 'g' and isinstance(v, Poly) and v.is_const() and isinstance(n, Poly) and n.is_const():
                n = n.cval()
                k = ckey(p)
                by = v.cval() & 255
                for o in range(n):
                    st.mem[(p.obj, p.off + o)] = (C(by), 1)
                # the default construction of a container is a zeroed header
                return ret(st)
            havoc_ptr(E, st, p)
            return ret(st)
        if b.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s, n = args[0], args[1], args[2]
            n = st.store.canon(n)
            if isinstance(d, S_.Ptr) and isinstance(s, S_.Ptr) and n.is_const():
                n = n.cval()
                got = False
                if s.obj[0] == 'g':
                    g = E.P.globals.get(s.obj[1])
                    if g and 'init' in g:
                        for off, kind, *rest in [tuple(y) for y in g['init']]:
                            if kind == 'val' and s.off <= off < s.off + n:
                                st.mem[(d.obj, d.off + off - s.off)] = (E.val(st, rest[0]), rest[1])
                            elif kind == 'zero':
                                for o in range(max(off, s.off), min(off + rest[0], s.off + n)):
                                    st.mem[(d.obj, d.off + o - s.off)] = (ZERO, 1)
                            elif kind == 'str':
                                for j, ch in enumerate(rest[0]):
                                    if s.off <= off + j < s.off + n:
                                        st.mem[(d.obj, d.off + off + j - s.off)] = (C(ord(ch) & 255), 1)
                        return ret(st)
                else:
                    for (o, off), v in list(st.mem.items()):
                        if o == s.obj and s.off <= off < s.off + n:
                            st.mem[(d.obj, d.off + off - s.off)] = v
                    return ret(st)
            if isinstance(s, S_.EPtr) and isinstance(d, S_.Ptr) and n.is_const():
                c = st.conts.get(s.c)
                if c is not None and c.esize == n.cval() and s.sub == 0:
                    if not bounds(E, st, s, x):
                        return []
                    if c.kind == 'digit':
                        out = []
                        for s2, dd in read_digit(E, st, s.c, s.idx):
                            s2.mem[(d.obj, d.off)] = (dd, c.esize)
                            out.append((s2, 'ret', None))
                        return out
                    if c.kind == 'cx':
                        h = c.esize // 2
                        st.mem[(d.obj, d.off)] = (cx_elem(E, st, c, s.idx, 0), h)
                        st.mem[(d.obj, d.off + h)] = (cx_elem(E, st, c, s.idx, 1), h)
                        return ret(st)
            if isinstance(d, S_.EPtr):
                c = st.conts.get(d.c)
                if c is not None:
                    if not bounds(E, st, d, x):
                        return []
                    if c.kind == 'digit' and isinstance(s, S_.Ptr) and n.is_const() and n.cval() == c.esize:
                        v = st.mem.get((s.obj, s.off))
                        if v and isinstance(v[0], Poly):
                            return [(s2, 'ret', None) for s2 in write_digit(E, st, d.c, d.idx, v[0], x)]
                    E.inexact(st, 'block copy into a container')
                    put(st, d.c, havoc_cont(E, st, c))
                    wrote(st, d.c)
                return ret(st)
            E.inexact(st, 'block copy')
            havoc_ptr(E, st, d)
            return ret(st)
        if b.startswith('llvm.floor'):
            return ret(st, S_.FV('floor', args[0]) if not (isinstance(args[0], S_.FV) and args[0].op == 'int') else args[0])
        if b.startswith(('llvm.round', 'llvm.nearbyint', 'llvm.rint', 'llvm.ceil', 'llvm.trunc', 'llvm.fabs', 'llvm.sqrt')):
            return ret(st, S_.FV(b.split('.')[1], args[0]))
        if b.startswith('llvm.fmuladd') or b.startswith('llvm.fma'):
            return ret(st, E.fp('fadd', E.fp('fmul', args[0], args[1]), args[2]))
        if b.startswith('llvm.eh.typeid.for'):
            a = x['ops'][0]
            return ret(st, ('tid', a[1] if a[0] == 'g' else None))
        if b.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            w = type_bits(x['ty'])
            out = []
            nf = E.norm if b[5] == 'u' else E.snorm
            for s1, a in nf(st, E.as_int(st, args[0]), w):
                for s2, c in nf(s1, E.as_int(s1, args[1]), w):
                    for s3, t in E.fork(s2, a - c):
                        out.append((s3, 'ret', (a if t else c) if 'max' in b else (c if t else a)))
            return out
        if b.startswith('llvm.expect'):
            return ret(st, args[0])
        if b.startswith('llvm.trap'):
            return [(st, 'unreach', None)]
        return None
    h = LIBC.get(b)
    if h:
        return h(E, st, x, args)
    if b in ('std::max', 'std::min') and len(args) == 2 and all(isinstance(a, (S_.Ptr, S_.EPtr)) for a in args):
        t = S_.split_top(q.targs)[0] if q.targs else ''
        w = {'unsigned long': 64, 'unsigned int': 32, 'unsigned short': 16, 'unsigned char': 8}.get(t)
        if w:
            out = []
            for s1, a in E.load(st, args[0], w // 8, 'i%d' % w, x):
                for s2, c in E.load(s1, args[1], w // 8, 'i%d' % w, x):
                    for s3, u in E.norm(s2, E.as_int(s2, a), w):
                        for s4, v in E.norm(s3, E.as_int(s3, c), w):
                            for s5, t5 in E.fork(s4, (u - v) if b == 'std::min' else (v - u)):
                                # min: second when u > v ; max: second when u < v
                                if b == 'std::min':
                                    r = args[0] if not t5 or s5.store.prove(v - u) else args[1]
                                else:
                                    r = args[0] if not t5 or s5.store.prove(u - v) else args[1]
                                out.append((s5, 'ret', r))
            return out
    if b == 'std::swap' and 'std::vector<' in q.params.split('&')[0] or b == 'std::vector::swap':
        k1, c1 = get(E, st, args[0])
        k2, c2 = get(E, st, args[1])
        if c1 is not None and c2 is not None:
            put(st, k1, c2)
            put(st, k2, c1)
            wrote(st, k1)
            wrote(st, k2)
            return ret(st)
    if q.cls == 'std::vector':
        return vector_call(E, st, x, G, q, args)
    if q.cls in ('std::allocator', 'std::__new_allocator', 'std::_Vector_base') and q.meth.lstrip('~') in ('allocator', '__new_allocator', '_Vector_base'):
        return ret(st)
    if b.startswith('std::complex') or (b.startswith('std::') and 'std::complex<' in q.params) or b == 'std::conj':
        r = complex_call(E, st, x, q, args)
        if r is not None:
            return r
    if b in ('std::operator<<', 'std::ostream::operator<<', 'std::basic_ostream::operator<<'):
        return ostream_call(E, st, x, q, args)
    if q.cls in ('std::basic_ostream', 'std::ostream') and q.meth in ('put', 'flush', 'write'):
        if q.meth == 'put':
            return emit(E, st, args[0], ('char', st.store.canon(args[1])))
        if q.meth == 'flush':
            return ret(st, args[0])
    if b == 'std::exception::~exception' or q.meth == '~exception':
        return ret(st)
    if b in ('std::vector::~vector',):
        return ret(st)
    return None


def _cxa_alloc(E, st, x, args):
    st.objs += 1
    return ret(st, S_.Ptr(('a', ('exc', st.objs), 0), 0))


def _cxa_throw(E, st, x, args):
    ti = x['ops'][1]
    name = ti[1] if ti[0] == 'g' else '?'
    loc = tuple(x.get('loc') or ())
    st.events = st.events + (('cxa_throw', name, loc),)
    return [(st, 'exc', ('new', name, loc))]


def _cxa_begin(E, st, x, args):
    e = args[0]
    if isinstance(e, tuple) and e and e[0] == 'excptr':
        st.exc = e[1]
    st.events = st.events + (('catch', st.exc),)
    return ret(st, S_.Ptr(('a', ('excobj',), 0), 0))


def _cxa_end(E, st, x, args):
    return ret(st)


def _cxa_rethrow(E, st, x, args):
    st.events = st.events + (('rethrow', st.exc),)
    return [(st, 'exc', st.exc)]


def _terminate(E, st, x, args):
    st.events = st.events + (('terminate',),)
    return [(st, 'unreach', None)]


def _new(E, st, x, args):
    st.objs += 1
    out = thrower(E, st, x, 'allocation')
    return out + ret(st, S_.Ptr(('a', ('heap', st.objs), 0), 0))


LIBC = {
    '__cxa_allocate_exception': _cxa_alloc,
    '__cxa_free_exception': lambda E, st, x, a: ret(st),
    '__cxa_throw': _cxa_throw,
    '__cxa_begin_catch': _cxa_begin,
    '__cxa_end_catch': _cxa_end,
    '__cxa_rethrow': _cxa_rethrow,
    '__clang_call_terminate': _terminate,
    'std::terminate': _terminate,
    'abort': _terminate,
    'operator new': _new,
    'operator new[]': _new,
    'operator delete': lambda E, st, x, a: ret(st),
    'operator delete[]': lambda E, st, x, a: ret(st),
    'floor': lambda E, st, x, a: ret(st, S_.FV('floor', a[0])),
    'round': lambda E, st, x, a: ret(st, S_.FV('round', a[0])),
    'cos': lambda E, st, x, a: ret(st, trig('cos', a[0])),
    'sin': lambda E, st, x, a: ret(st, trig('sin', a[0])),
    'cosf': lambda E, st, x, a: ret(st, trig('cosf', a[0])),
    'sinf': lambda E, st, x, a: ret(st, trig('sinf', a[0])),
    'lround': lambda E, st, x, a: [(s, 'ret', v) for s, v in fp_to_int(E, st, S_.FV('lround', a[0]), 64, x)],
    'llround': lambda E, st, x, a: [(s, 'ret', v) for s, v in fp_to_int(E, st, S_.FV('llround', a[0]), 64, x)],
}


def ptrval(E, st, p, info, inst):
    """[(state, poly)] value of the element a const T& argument refers to"""
    out = []
    w = info[2] * 8
    for s, v in E.load(st, p, info[2], 'i%d' % w, inst):
        out += E.norm(s, E.as_int(s, v), w)
    return out


def zero_of(kind):
    z = S_.FV('const', 0.0)
    return (z, z) if kind == 'cx' else z


def fill(E, st, k, c, n, xval, inst):
    """container of n copies of xval"""
    if xval == ZERO or c.kind != 'digit':
        el = None
        n = st.store.canon(n)
        if c.kind in ('cx', 'fp') and n.is_const() and n.cval() <= 4096:
            el = (zero_of(c.kind),) * n.cval()
        return c._replace(size=n, V=ZERO if c.kind == 'digit' else c.V, base=None, of=ZERO, ou=ZERO, bl=ZERO, dm=(), tag=None, elems=el)
    if n.is_const() and 0 <= n.cval() <= 4:
        V = ZERO
        dm = ()
        for t in range(int(n.cval())):
            V = V + xval * (E.R.B ** t)
            dm += ((C(t), xval),)
        return c._replace(size=n, V=V, base=None, of=n, ou=ZERO, bl=ZERO, dm=dm, tag=None)
    # V*(B-1) = x*(W(n)-1)
    v = Poly.sym(fresh('Vf', 'V', 0, None))
    st.store.add_eq(v * (E.R.B - 1) - xval * (E.R.W(n) - 1))
    return c._replace(size=n, V=v, base=None, of=n, ou=ZERO, bl=ZERO, dm=(), tag=None)


def grow(E, st, k, n, xval, inst):
    """resize a container: states"""
    out = []
    for s, big in E.fork(st, n - st.conts[k].size):
        c = s.conts[k]
        S = s.store
        n2 = S.canon(n)
        if big:
            if xval == ZERO or c.kind != 'digit':
                eq = S.canon(n2 - c.size)
                if eq == ZERO:
                    put(s, k, c)
                else:
                    el = None
                    if c.elems is not None and n2.is_const() and S.canon(c.size).is_const() and n2.cval() <= 4096:
                        el = c.elems + (zero_of(c.kind),) * (n2.cval() - len(c.elems))
                    put(s, k, c._replace(size=n2, elems=el))
            elif S.canon(n2 - c.size) == ZERO:
                put(s, k, c)
            else:
                v = Poly.sym(fresh('Vg', 'V', 0, None))
                S.add_eq((v - c.V) * (E.R.B - 1) - xval * (E.R.W(n2) - E.R.W(c.size)))
                put(s, k, c._replace(size=n2, V=v, of=n2, tag=None))
            # digits appended: the base content does not extend
        else:
            shrink(E, s, k, n2)
        wrote(s, k)
        out.append(s)
    return out


def shrink(E, s, k, n):
    """drop digits at positions >= n (n <= size)"""
    c = s.conts[k]
    S = s.store
    if c.kind in ('cx', 'fp'):
        n = S.canon(n)
        el = c.elems[:n.cval()] if c.elems is not None and n.is_const() else None
        s.conts[k] = c._replace(size=n, elems=el, tag=None, ver=c.ver + 1)
        return
    n = S.canon(n)
    if n.is_const() and c.base is None:
        ds = known(s, c)
        if ds is not None:
            s.conts[k] = explicit(E, c, ds[:int(n.cval())])
            return
    keep = []
    for i, d in c.dm:
        if S.prove(n - i - 1):
            keep.append((i, d))
    V = None
    if c.V is not None:
        drop = S.canon(c.size - n)
        if drop.is_const() and 0 <= drop.cval() <= 3:
            V = c.V
            for t in range(int(drop.cval())):
                i = S.canon(n + t)
                (s2, d), = read_digit(E, s, k, i)
                V = S.canon(V - E.R.W(i) * d)
        elif S.prove(n - c.of) and (c.base is None or S.prove(n - c.bl)):
            V = c.V
        elif c.base is not None and (S.prove(-c.of) or (S.prove(c.ou - n))) and S.prove(c.bl - n):
            # the kept digits are the base's own
            V = S.canon(E.R.P(c.base, n))
        else:
            hi = Poly.sym(fresh('hi', 'i', 0, None))
            E.inexact(s, 'digits dropped')
            V = S.canon(c.V - E.R.W(n) * hi)
    c = s.conts[k]
    bl = c.bl
    if not S.prove(n - bl):
        bl = n if S.prove(bl - n) else _min(s, bl, n)
    s.conts[k] = c._replace(size=n, V=V, dm=tuple(keep), bl=S.canon(bl), ver=c.ver + 1)
    vfacts(E, s, k)


def _min(s, a, b):
    n = Poly.sym(fresh('min', 'i', 0, None))
    s.store.add_ge(a - n)
    s.store.add_ge(b - n)
    return n


def vector_call(E, st, x, G, q, args):
    info = cont_kind(G, q)
    m = q.meth
    S = st.store
    this = args[0] if args else None
    kind, M, es = info
    if m == 'vector':
        ps = S_.split_top(q.params)
        ps = [p for p in ps if 'allocator<' not in p or p.startswith('std::vector')]
        k = ckey(this)
        if k is None:
            return None
        for mk_ in [z for z in st.mem if z[0] == k[0] and k[1] <= z[1] < k[1] + 24]:
            del st.mem[mk_]
        if not ps:
            st.conts[k] = empty(kind, M, es)
            wrote(st, k, 'ctor')
            return ret(st)
        p0 = ps[0]
        if p0.startswith('std::vector<'):
            if p0.endswith('&&'):
                k2, c2 = get(E, st, args[1], info)
                st.conts[k] = c2
                put(st, k2, empty(kind, M, es))
                wrote(st, k, 'ctor')
                wrote(st, k2)
                return ret(st)
            k2, c2 = get(E, st, args[1], info)
            out = thrower(E, st, x, 'copy')
            st.conts[k] = c2
            wrote(st, k, 'ctor')
            return out + ret(st)
        if p0.startswith('std::initializer_list<'):
            out = thrower(E, st, x, 'copy')
            return out + init_list(E, st, k, info, args[1], args[2], x)
        if p0 == 'unsigned long':
            out = thrower(E, st, x, 'allocation')
            n = E.as_int(st, args[1])
            if kind == 'digit' and len(ps) > 1:
                for s, v in ptrval(E, st, args[2], info, x):
                    for s2, nn in E.norm(s, n, 64):
                        s2.conts[k] = fill(E, s2, k, empty(kind, M, es), nn, v, x)
                        wrote(s2, k, 'ctor')
                        out += ret(s2)
                return out
            for s2, nn in E.norm(st, n, 64):
                s2.conts[k] = fill(E, s2, k, empty(kind, M, es), nn, ZERO, x)
                wrote(s2, k, 'ctor')
                out += ret(s2)
            return out
        # iterator range
        a, b2 = args[1], args[2]
        if isinstance(a, S_.EPtr) and isinstance(b2, S_.EPtr) and a.c == b2.c:
            out = thrower(E, st, x, 'copy')
            r = range_copy(E, st, k, info, a, b2, x)
            wrote(st, k, 'ctor')
            return out + ret(st)
        E.inexact(st, 'vector constructor')
        st.conts[k] = mk(st, 'vec', kind, M, es, Poly.sym(fresh('size', 'i', 0, S_.SIZEMAX)))
        wrote(st, k, 'ctor')
        return ret(st)
    if m == '~vector':
        return ret(st)
    k, c = get(E, st, this, info)
    if c is None:
        return None
    if m == 'size':
        return ret(st, c.size)
    if m == 'empty':
        return [(s, 'ret', C(int(t))) for s, t in E.fork_eq(st, c.size)]
    if m == 'capacity':
        n = Poly.sym(fresh('cap', 'i', 0, None))
        S.add_ge(n - c.size)
        return ret(st, n)
    if m in ('max_size',):
        return ret(st, C((1 << 63) // max(es or 1, 1) - 1))
    if m in ('operator[]', 'at'):
        out = []
        for s, i in E.norm(st, E.as_int(st, args[1]), 64):
            if m == 'at':
                for s2, t in E.fork(s, s.conts[k].size - i - 1):
                    if t:
                        out.append((s2, 'ret', S_.EPtr(k, s2.store.canon(i), 0)))
                    else:
                        out.append((s2, 'exc', ('new', '_ZTISt12out_of_range', tuple(x.get('loc') or ()))))
            else:
                if not E.oblig('bounds', s, s.conts[k].size - i - 1, x, 'digit access inside the stored digits') and s.store.dead:
                    continue
                out.append((s, 'ret', S_.EPtr(k, s.store.canon(i), 0)))
        return out
    if m in ('begin', 'cbegin', 'data'):
        return ret(st, S_.EPtr(k, ZERO, 0))
    if m in ('end', 'cend'):
        return ret(st, S_.EPtr(k, c.size, 0))
    if m == 'front':
        E.oblig('bounds', st, c.size - 1, x, 'front() of a non-empty container')
        return ret(st, S_.EPtr(k, ZERO, 0)) if not S.dead else []
    if m == 'back':
        E.oblig('bounds', st, c.size - 1, x, 'back() of a non-empty container')
        return ret(st, S_.EPtr(k, c.size - 1, 0)) if not S.dead else []
    if m == 'reserve':
        return thrower(E, st, x, 'allocation') + ret(st)
    if m == 'shrink_to_fit':
        return ret(st)
    if m == 'clear':
        put(st, k, empty(kind, M, es))
        wrote(st, k)
        return ret(st)
    if m in ('push_back', 'emplace_back'):
        out = thrower(E, st, x, 'allocation')
        if kind == 'digit':
            for s, v in ptrval(E, st, args[1], info, x):
                E.oblig('digit-range', s, C(M) - v, x, 'stored digit is smaller than the radix')
                if s.store.dead:
                    continue
                c = s.conts[k]
                n = c.size
                V = s.store.canon(c.V + E.R.W(n) * v)
                of = c.of
                if v != ZERO and not s.store.prove(of - n - 1):
                    of = n + 1
                s.conts[k] = c._replace(size=n + 1, V=V, dm=c.dm + ((n, v),), of=of, ver=c.ver + 1, tag=None)
                vfacts(E, s, k, (n, v))
                wrote(s, k)
                out.append((s, 'ret', S_.EPtr(k, n, 0)))
            return out
        el = None
        n0 = st.store.canon(c.size)
        if c.elems is not None and n0.is_const() and n0.cval() == len(c.elems):
            if kind == 'cx':
                if m == 'emplace_back' and len(args) == 3:
                    fv = [E.load(st, a, es // 2, 'double', x)[0][1] for a in args[1:]]
                    el = c.elems + (tuple(fv),)
                elif m == 'push_back' or len(args) == 2:
                    el = c.elems + (tuple(cxval(E, st, args[1], es // 2)),)
            elif kind == 'fp':
                el = c.elems + (E.load(st, args[1], es, 'double', x)[0][1],)
        put(st, k, c._replace(size=c.size + 1, tag=None, elems=el))
        wrote(st, k)
        h = E.hooks.get('cx_push')
        if h and kind == 'cx':
            h(E, st, k, c, args[1], x)
        return out + ret(st, S_.EPtr(k, c.size, 0))
    if m == 'pop_back':
        E.oblig('bounds', st, c.size - 1, x, 'pop_back() of a non-empty container')
        if S.dead:
            return []
        shrink(E, st, k, S.canon(c.size - 1))
        wrote(st, k)
        return ret(st)
    if m == 'resize':
        out = thrower(E, st, x, 'allocation')
        for s, n in E.norm(st, E.as_int(st, args[1]), 64):
            if kind == 'digit' and len(args) > 2:
                vs = ptrval(E, s, args[2], info, x)
            else:
                vs = [(s, ZERO)]
            for s2, v in vs:
                if kind == 'digit':
                    E.oblig('digit-range', s2, C(M) - v, x, 'stored digit is smaller than the radix')
                if s2.store.dead:
                    continue
                for s3 in grow(E, s2, k, n, v, x):
                    s3.events = s3.events + (('resize', k, s3.store.canon(n), v),)
                    out.append((s3, 'ret', None))
        return out
    if m in ('operator=', 'assign'):
        ps = S_.split_top(q.params)
        p0 = ps[0] if ps else ''
        if p0.startswith('std::vector<'):
            k2, c2 = get(E, st, args[1], info)
            if c2 is None:
                return None
            if p0.endswith('&&'):
                if k2 == k:
                    E.inexact(st, 'self-move of a container')
                    put(st, k, empty(kind, M, es))
                    wrote(st, k)
                    return ret(st, this)
                put(st, k, c2)
                put(st, k2, empty(kind, M, es))
                wrote(st, k)
                wrote(st, k2)
                return ret(st, this)
            out = thrower(E, st, x, 'copy')
            if k2 != k:
                put(st, k, c2)
                wrote(st, k)
            return out + ret(st, this)
        if p0.startswith('std::initializer_list<'):
            out = thrower(E, st, x, 'copy')
            return out + [(s, kk, this) for s, kk, v in init_list(E, st, k, info, args[1], args[2], x)]
        if p0 == 'unsigned long' and kind == 'digit':
            out = thrower(E, st, x, 'allocation')
            for s, v in ptrval(E, st, args[2], info, x):
                for s2, n in E.norm(s, E.as_int(s, args[1]), 64):
                    put(s2, k, fill(E, s2, k, s2.conts[k], n, v, x))
                    wrote(s2, k)
                    out.append((s2, 'ret', None))
            return out
        a, b2 = args[1], args[2] if len(args) > 2 else None
        if isinstance(a, S_.EPtr) and isinstance(b2, S_.EPtr) and a.c == b2.c:
            out = thrower(E, st, x, 'copy')
            range_copy(E, st, k, info, a, b2, x)
            wrote(st, k)
            return out + ret(st)
    if m in ('insert', 'emplace'):
        pos = args[1]
        if isinstance(pos, S_.EPtr) and pos.c == k and kind == 'digit' and len(args) == 3:
            out = thrower(E, st, x, 'allocation')
            for s, v in ptrval(E, st, args[2], info, x):
                E.oblig('bounds', s, s.conts[k].size - pos.idx, x, 'insertion inside the digits')
                E.oblig('bounds', s, pos.idx, x, 'insertion inside the digits')
                E.oblig('digit-range', s, C(M) - v, x, 'stored digit is smaller than the radix')
                if s.store.dead:
                    continue
                out.append((s, 'ret', insert_one(E, s, k, s.store.canon(pos.idx), v)))
            return out
    if m == 'erase':
        pos = args[1]
        if isinstance(pos, S_.EPtr) and pos.c == k:
            if len(args) == 2:
                E.oblig('bounds', st, c.size - pos.idx - 1, x, 'erased digit inside the digits')
                E.oblig('bounds', st, pos.idx, x, 'erased digit inside the digits')
                if S.dead:
                    return []
                return ret(st, erase_range(E, st, k, S.canon(pos.idx), S.canon(pos.idx + 1)))
            p2 = args[2]
            if isinstance(p2, S_.EPtr) and p2.c == k:
                E.oblig('bounds', st, c.size - p2.idx, x, 'erased digits inside the digits')
                E.oblig('bounds', st, p2.idx - pos.idx, x, 'erased digits inside the digits')
                E.oblig('bounds', st, pos.idx, x, 'erased digits inside the digits')
                if S.dead:
                    return []
                return ret(st, erase_range(E, st, k, S.canon(pos.idx), S.canon(p2.idx)))
    if m == 'get_allocator' or m.startswith('_M_get'):
        return ret(st, S_.UNDEF)
    E.inexact(st, 'std::vector::%s' % m)
    if not q.const:
        put(st, k, havoc_cont(E, st, c))
        wrote(st, k)
    return thrower(E, st, x, 'vector') + ret(st, E.fresh_of(x.get('ty', ''), 'vec') if x.get('ty') else None)


def known(s, c):
    """the digits as a list when every one of them is tracked and the size is constant"""
    S = s.store
    n = S.canon(c.size)
    if c.kind != 'digit' or not n.is_const():
        return None
    r = []
    at = {}
    for i, v in c.dm:
        i = S.canon(i)
        if i.is_const():
            at[i.cval()] = v
    for t in range(int(n.cval())):
        d = S.canon(at[t]) if t in at else None
        if d is None and c.base is None and (S.prove(C(t) - c.of) or S.prove(c.ou - t - 1)):
            d = ZERO
        if d is None:
            return None
        r.append(d)
    return r


def explicit(E, c, ds):
    """container with exactly these digits"""
    V = ZERO
    for t, d in enumerate(ds):
        V = V + d * (E.R.B ** t)
    n = C(len(ds))
    return c._replace(size=n, V=V, base=None, of=n, ou=ZERO, bl=ZERO, dm=tuple((C(t), d) for t, d in enumerate(ds)), ver=c.ver + 1, tag=None)


def explicit_of(R, kind, M, esize, ds):
    V = ZERO
    for t, d in enumerate(ds):
        V = V + d * (R.B ** t)
    n = C(len(ds))
    return S_.Cont(kind, M, esize, n, V, None, n, ZERO, ZERO, ZERO, tuple((C(t), d) for t, d in enumerate(ds)), True, None, 0, None)


def insert_one(E, s, k, i, v):
    """insert digit v at index i"""
    c = s.conts[k]
    S = s.store
    R = E.R
    n = c.size
    ds = known(s, c)
    if ds is not None and S.canon(i).is_const():
        i0 = int(S.canon(i).cval())
        s.conts[k] = explicit(E, c, ds[:i0] + [v] + ds[i0:])
        s.events = s.events + (('insert', k, i, v),)
        wrote(s, k)
        return S_.EPtr(k, i, 0)
    if c.base is not None and S.prove(-c.of):
        lowP = R.P(c.base, i)
    elif S.canon(i) == ZERO:
        lowP = ZERO
    elif S.canon(i - n) == ZERO:
        lowP = c.V
    else:
        lowP = Poly.sym(fresh('low', 'i', 0, None))
        E.inexact(s, 'digit inserted')
        S.add_ge(R.W(i) - 1 - lowP)
    V = S.canon(lowP + R.W(i) * v + (c.V - lowP) * R.B)
    s.conts[k] = c._replace(size=S.canon(n + 1), V=V, base=None, of=S.canon(n + 1), ou=ZERO, bl=ZERO,
                            dm=((i, v),), ver=c.ver + 1, tag=None)
    vfacts(E, s, k, (i, v))
    s.events = s.events + (('insert', k, i, v),)
    wrote(s, k)
    return S_.EPtr(k, i, 0)


def erase_range(E, s, k, i, j):
    c = s.conts[k]
    S = s.store
    R = E.R
    n = c.size
    whole = c.base is not None and S.prove(-c.of) and S.prove(c.bl - n)
    if c.kind != 'digit':
        put(s, k, c._replace(size=S.canon(n - (j - i)), tag=None, elems=None))
        wrote(s, k)
        return S_.EPtr(k, i, 0)
    ds = known(s, c)
    if ds is not None and S.canon(i).is_const() and S.canon(j).is_const():
        i0, j0 = int(S.canon(i).cval()), int(S.canon(j).cval())
        s.conts[k] = explicit(E, c, ds[:i0] + ds[j0:])
        s.events = s.events + (('erase', k, i, j),)
        wrote(s, k)
        return S_.EPtr(k, i, 0)
    if S.canon(n - j) == ZERO:
        shrink(E, s, k, i)
        s.events = s.events + (('erase', k, i, j),)
        wrote(s, k)
        return S_.EPtr(k, i, 0)
    if whole:
        lo, mid = R.P(c.base, i), R.P(c.base, j)
    else:
        lo = ZERO if i == ZERO else Poly.sym(fresh('low', 'i', 0, None))
        E.inexact(s, 'digits erased')
        mid = Poly.sym(fresh('mid', 'i', 0, None))
        if i != ZERO:
            S.add_ge(R.W(i) - 1 - lo)
        S.add_ge(R.W(j) - 1 - mid)
        S.add_ge(mid - lo)
    V = S.canon(lo + (c.V - mid) * R.W(i - j))
    s.conts[k] = c._replace(size=S.canon(n - (j - i)), V=V, base=None, of=S.canon(n - (j - i)), ou=ZERO, bl=ZERO,
                            dm=(), ver=c.ver + 1, tag=None)
    s.events = s.events + (('erase', k, i, j),)
    wrote(s, k)
    return S_.EPtr(k, i, 0)


def range_copy(E, st, k, info, a, b, inst):
    src = st.conts[a.c]
    S = st.store
    kind, M, es = info
    E.oblig('bounds', st, src.size - b.idx, inst, 'copied digits inside the digits')
    E.oblig('bounds', st, a.idx, inst, 'copied digits inside the digits')
    E.oblig('bounds', st, b.idx - a.idx, inst, 'copied digits inside the digits')
    if S.canon(a.idx) == ZERO and S.canon(b.idx - src.size) == ZERO:
        st.conts[k] = src._replace(ver=src.ver + 1)
        return
    if S.canon(a.idx) == ZERO and a.c != k:
        st.conts[k] = src
        shrink(E, st, k, S.canon(b.idx))
        return
    ds = known(st, src)
    if ds is not None and S.canon(a.idx).is_const() and S.canon(b.idx).is_const():
        st.conts[k] = explicit(E, src, ds[int(S.canon(a.idx).cval()):int(S.canon(b.idx).cval())])
        return
    n = S.canon(b.idx - a.idx)
    d = mk(st, 'rng', kind, M, es, n)
    E.inexact(st, 'part of the digits copied')
    if src.base is not None and S.prove(-src.of) and S.prove(src.bl - b.idx):
        S.add_eq(d.V * E.R.W(a.idx) - (E.R.P(src.base, b.idx) - E.R.P(src.base, a.idx)))
    elif S.canon(b.idx - src.size) == ZERO:
        lo = Poly.sym(fresh('low', 'i', 0, None))
        S.add_ge(E.R.W(a.idx) - 1 - lo)
        S.add_eq(d.V * E.R.W(a.idx) + lo - src.V)
    st.conts[k] = d


def init_list(E, st, k, info, p, n, inst):
    """vector from {pointer, length}"""
    kind, M, es = info
    n = st.store.canon(E.as_int(st, n))
    if isinstance(p, S_.EPtr) and p.c in st.conts and st.conts[p.c].kind == 'fixed':
        E.inexact(st, 'reversed copy of an initializer list')
        st.conts[k] = mk(st, 'il', kind, M, es, n)
        wrote(st, k, 'ctor')
        return ret(st)
    if n.is_const() and n.cval() <= 8 and isinstance(p, S_.Ptr) and kind == 'digit':
        states = [(st, ZERO, ())]
        for t in range(int(n.cval())):
            nxt = []
            for s, V, dm in states:
                for s2, v in ptrval(E, s, S_.Ptr(p.obj, p.off + t * es), info, inst):
                    E.oblig('digit-range', s2, C(M) - v, inst, 'stored digit is smaller than the radix')
                    nxt.append((s2, V + v * (E.R.B ** t), dm + ((C(t), v),)))
            states = nxt
        out = []
        for s, V, dm in states:
            s.conts[k] = empty(kind, M, es)._replace(size=n, V=V, of=n, dm=dm, ver=1)
            wrote(s, k, 'ctor')
            out += ret(s)
        return out
    E.inexact(st, 'initializer list')
    st.conts[k] = mk(st, 'il', kind, M, es, n)
    wrote(st, k, 'ctor')
    return ret(st)


# ------------------------------------------------------------------ complex
def complex_call(E, st, x, q, args):
    h = E.hooks.get('complex')
    if h:
        r = h(E, st, x, q, args)
        if r is not None:
            return r
    m = q.meth
    fs = 4 if 'std::complex<float>' in (q.params + 'std::complex<' + q.cargs + '>') else 8
    ft = 'float' if fs == 4 else 'double'
    if m in ('real', 'imag') and q.cls == 'std::complex':
        p = args[0]
        off = 0 if m == 'real' else fs
        if isinstance(p, S_.EPtr):
            c = st.conts.get(p.c)
            if c is None:
                return None
            if not bounds(E, st, p, x):
                return []
            return ret(st, cx_elem(E, st, c, p.idx, 0 if m == 'real' else 1))
        if isinstance(p, S_.Ptr):
            return [(s, 'ret', v) for s, v in E.load(st, S_.Ptr(p.obj, p.off + off), fs, ft, x)]
        return None
    for a in args:
        if isinstance(a, S_.EPtr) and a.c in st.conts and not bounds(E, st, a, x):
            return []
    fsz = fs

    def operand(a, t):
        """(re, im) of an argument of parameter type t"""
        t = t.replace('const', '').strip()
        if 'complex<' in t:
            return cxval(E, st, a, fsz)
        if isinstance(a, S_.FV):
            return a, S_.FV('const', 0.0)
        if isinstance(a, (S_.Ptr, S_.EPtr)):
            v = E.load(st, a, fsz, ft, x)[0][1]
            return (v if isinstance(v, S_.FV) else opaque()), S_.FV('const', 0.0)
        return opaque(), opaque()

    def arith(op, u, v, vt):
        re = 'complex<' not in vt
        if op in ('+', '-'):
            f = 'fadd' if op == '+' else 'fsub'
            return E.fp(f, u[0], v[0]), (u[1] if re else E.fp(f, u[1], v[1]))
        if op == '*':
            if re:
                return E.fp('fmul', u[0], v[0]), E.fp('fmul', u[1], v[0])
            return (E.fp('fsub', E.fp('fmul', u[0], v[0]), E.fp('fmul', u[1], v[1])),
                    E.fp('fadd', E.fp('fmul', u[0], v[1]), E.fp('fmul', u[1], v[0])))
        if op == '/' and (re or (v[1].op == 'const' and v[1].args[0] == 0.0)):
            return E.fp('fdiv', u[0], v[0]), E.fp('fdiv', u[1], v[0])
        return opaque(), opaque()
    ps = S_.split_top(q.params)
    if m == 'complex' and isinstance(args[0], S_.Ptr):
        if ps and 'complex<' in ps[0]:
            v = cxval(E, st, args[1], fs)
        else:
            v = [z if isinstance(z, S_.FV) else S_.FV('const', 0.0) if z == ZERO else opaque() for z in (list(args[1:]) + [S_.FV('const', 0.0)] * 2)[:2]]
        st.mem[(args[0].obj, args[0].off)] = (v[0], fs)
        st.mem[(args[0].obj, args[0].off + fs)] = (v[1], fs)
        return ret(st)
    if m == 'conj':
        u = cxval(E, st, args[0], fs)
        return ret(st, S_.Agg((u[0], E.fp('fneg', u[1]))))
    if m in ('real', 'imag'):
        return ret(st, cxval(E, st, args[0], fs)[m == 'imag'])
    if m == 'polar':
        r = [E.load(st, a, fs, ft, x)[0][1] if isinstance(a, (S_.Ptr, S_.EPtr)) else a for a in args]
        return ret(st, S_.Agg((E.fp('fmul', r[0], trig('cos', r[1])), E.fp('fmul', r[0], trig('sin', r[1])))))
    if m in ('operator+', 'operator-', 'operator*', 'operator/'):
        if len(ps) == 1:
            u = operand(args[0], ps[0])
            return ret(st, S_.Agg((E.fp('fneg', u[0]), E.fp('fneg', u[1])) if m == 'operator-' else u))
        u, v = operand(args[0], ps[0]), operand(args[1], ps[1])
        op = m[8:]
        if 'complex<' not in ps[0]:
            if op in '+*':
                return ret(st, S_.Agg(arith(op, v, u, ps[0])))
            if op == '-':
                return ret(st, S_.Agg((E.fp('fsub', u[0], v[0]), E.fp('fneg', v[1]))))
            return ret(st, S_.Agg((opaque(), opaque())))
        return ret(st, S_.Agg(arith(op, u, v, ps[1])))
    if m in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
        t = 'complex<x>' if ps and 'complex<' in ps[0] else 'double'
        v = operand(args[1], t)
        r = v if m == 'operator=' else arith(m[8], cxval(E, st, args[0], fs), v, t)
        if isinstance(args[0], S_.EPtr):
            cx_set(E, st, args[0], tuple(r))
        elif isinstance(args[0], S_.Ptr):
            st.mem[(args[0].obj, args[0].off)] = (r[0], fs)
            st.mem[(args[0].obj, args[0].off + fs)] = (r[1], fs)
        return ret(st, args[0])
    return None


def trig(f, v):
    import math
    k = None
    if isinstance(v, S_.FV) and v.op == 'const':
        k = v.args[0]
    if isinstance(v, S_.FV) and v.op == 'int' and v.args[0].is_const():
        k = v.args[0].cval()
    if k is None:
        return S_.FV(f, v)
    r = getattr(math, f[:3])(k)
    return S_.FV('const', S_.to_float(r) if f.endswith('f') else r)


# ------------------------------------------------------------------ streams
def emit(E, st, stream, what):
    key = stream_key(stream)
    st.events = st.events + (('out', key, what, E.locstack and E.curloc),)
    k = (('stream', key), 0)
    c = st.conts.get(k)
    if c is not None and what[0] == 'num' and c.kind == 'stream':
        n = c.size
        V = st.store.canon(c.V + E.R.W(-n) * what[1])
        st.conts[k] = c._replace(size=n + 1, V=V, ver=c.ver + 1)
    return ret(st, stream)


def stream_key(p):
    if isinstance(p, S_.Ptr):
        return p.obj
    return ('?',)


def cstr(E, st, p):
    if isinstance(p, S_.Ptr) and p.obj[0] == 'g':
        g = E.P.globals.get(p.obj[1])
        if g and 'init' in g:
            for off, kind, *rest in [tuple(y) for y in g['init']]:
                if kind == 'str':
                    return rest[0][p.off - off:].split('\0')[0]
                if kind == 'zero':
                    return ''
    return None


def ostream_call(E, st, x, q, args):
    out, a = args[0], args[1] if len(args) > 1 else None
    ps = S_.split_top(q.params)
    t = ps[-1] if ps else ''
    if 'char const*' in t:
        s = cstr(E, st, a)
        return emit(E, st, out, ('str', s) if s is not None else ('ptr', a))
    if t in ('char', 'unsigned char', 'signed char'):
        v = st.store.canon(E.as_int(st, a))
        return emit(E, st, out, ('char', v))
    if t in ('unsigned long', 'unsigned int', 'unsigned short', 'unsigned long long', 'int', 'long', 'short', 'long long', 'bool'):
        w = {'unsigned long': 64, 'unsigned long long': 64, 'unsigned int': 32, 'unsigned short': 16, 'int': 32, 'long': 64, 'long long': 64, 'short': 16, 'bool': 1}[t]
        nf = E.norm if t.startswith('unsigned') or t == 'bool' else E.snorm
        r = []
        for s, v in nf(st, E.as_int(st, a, 'i%d' % w), w):
            r += emit(E, s, out, ('num', v, t))
        return r
    if '(*)' in t or 'std::ostream& (' in t or t.startswith('std::_Set') or '&(*' in t:
        nm = a.obj[1] if isinstance(a, S_.Ptr) and a.obj[0] == 'g' else '?'
        return emit(E, st, out, ('manip', nm))
    return emit(E, st, out, ('other', t))
