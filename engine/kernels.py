"""Contracts of the magnitude kernels.  A contract is only used once the kernel
has been proved to satisfy it in the same digit system (see Kernels.prove)."""
from common import *
from vec import get, put, wrote, mk, thrower

CMP = {'abs_val_is_eq': 'eq', 'abs_val_is_gt': 'gt', 'abs_val_is_ge': 'ge', 'abs_val_is_lt': 'lt', 'abs_val_is_le': 'le'}


def canon_goal(E, c):
    return c.V * E.R.B - E.R.W(c.size) + 1


def top_fact(S, c):
    """a known top digit bounds the value from below"""
    if c.base is None or c.V is None or c.size.is_const():
        return
    i = S.canon(c.size - 1)
    if not S.prove(i) or not S.prove(c.bl - i - 1) or not (S.prove(i - c.of) or S.prove(c.ou - i - 1)):
        return
    d = S.canon(S.radix.dig(c.base, i))
    if not d.is_const() and S.prove(d - 1):
        S.add_ge(c.V - S.radix.W(i) * d)


def is_canon(E, st, c):
    if E.optimistic:
        return True
    ct = c.base
    if ct is not None and ct.canon and c.V == ct.V and st.store.canon(c.size - ct.size) == ZERO:
        return True
    top_fact(st.store, c)
    return prove_by_cases(st.store, canon_goal(E, c), [c.V, E.R.W(c.size)])


def two(st, args):
    k1, c1 = get(None, st, args[0])
    k2, c2 = get(None, st, args[1])
    if c1 is None or c2 is None or c1.kind != 'digit' or c2.kind != 'digit':
        return None
    return k1, c1, k2, c2


def cmp_contract(rel):
    def h(E, st, x, G, args):
        r = two(st, args)
        if r is None:
            return None
        k1, c1, k2, c2 = r
        if not (is_canon(E, st, c1) and is_canon(E, st, c2)):
            return None
        d = st.store.canon(c1.V - c2.V)
        if rel == 'eq':
            return [(s, 'ret', C(int(t))) for s, t in E.fork_eq(st, d)]
        p = {'gt': d - 1, 'ge': d, 'lt': -d - 1, 'le': -d}[rel]
        out = []
        for s, t in E.fork(st, p):
            saturate(s)
            if not s.store.dead:
                out.append((s, 'ret', C(int(t))))
        return out
    return h


def assign(E, st, k, V, name='r', canonical=True):
    """the container now holds a (canonical) number of value V"""
    c = st.conts[k]
    n = Poly.sym(fresh('n' + name, 'i', 0, SIZEMAX))
    d = mk(st, name, 'digit', c.M, c.esize, n, canonical)
    st.store.add_eq(d.V - V)
    V = st.store.canon(V)
    st.conts[k] = d._replace(V=V, ver=c.ver + 1)
    if canonical:
        st.store.add_ge(V * E.R.B - E.R.W(n) + 1)
    st.store.add_ge(E.R.W(n) - 1 - V)
    if canonical and V.is_const() and V.cval() == 0:
        st.store.add_eq(n)
    wrote(st, k)
    return n


def failed(E, st, x, k):
    """an exception left the kernel: the written operand is arbitrary"""
    out = thrower(E, st, x, 'allocation')
    for t, kind, v in out:
        put(t, k, E.vec.havoc_cont(E, t, t.conts[k]))
        wrote(t, k)
    return out


def add_contract(E, st, x, G, args):
    r = two(st, args)
    if r is None or r[0] == r[2]:
        return None
    k1, c1, k2, c2 = r
    out = failed(E, st, x, k1)
    if is_canon(E, st, c1) and is_canon(E, st, c2):
        assign(E, st, k1, c1.V + c2.V, 'sum')
        st.store.add_ge(st.conts[k1].size - c1.size)
        return out + [(st, 'ret', None)]
    # any digits: the sum has the longer length, or one digit more which is then not zero
    for s, longer in E.fork(st, c1.size - c2.size):
        m = c1.size if longer else c2.size
        for extra in (0, 1):
            t = s.copy()
            n = assign(E, t, k1, c1.V + c2.V, 'sum', False)
            t.store.add_eq(n - m - extra)
            if extra:
                t.store.add_ge(t.conts[k1].V - E.R.W(m))
            if not t.store.dead:
                t.path = t.path + (('contract', G.name if G else '', bool(longer), extra),)
                out.append((t, 'ret', None))
    return out


def sub_contract(E, st, x, G, args):
    r = two(st, args)
    if r is None or r[0] == r[2] or not (is_canon(E, st, r[1]) and is_canon(E, st, r[3])):
        return None
    k1, c1, k2, c2 = r
    if not E.optimistic and not prove_by_cases(st.store, c1.V - c2.V, [c1.V, c2.V]):
        return None
    out = failed(E, st, x, k1)
    assign(E, st, k1, c1.V - c2.V, 'dif')
    st.store.add_ge(c1.size - st.conts[k1].size)
    return out + [(st, 'ret', None)]


def alias_contract(mul):
    """kernel applied to one object twice: value times mul"""
    def h(E, st, x, G, args):
        r = two(st, args)
        if r is None or r[0] != r[2] or not is_canon(E, st, r[1]):
            return None
        out = failed(E, st, x, r[0])
        assign(E, st, r[0], r[1].V * mul, 'ali')
        return out + [(st, 'ret', None)]
    return h


def both(a, b):
    def h(E, st, x, G, args):
        r = a(E, st, x, G, args) if a else None
        return r if r is not None else (b(E, st, x, G, args) if b else None)
    return h


def div_contract(E, st, x, G, args):
    r = two(st, args)
    if r is None or r[0] == r[2] or not (is_canon(E, st, r[1]) and is_canon(E, st, r[3])):
        return None
    k1, c1, k2, c2 = r
    if not E.optimistic and not st.store.prove(c2.V - 1):
        return None
    out = failed(E, st, x, k1)
    key = ('div', st.store.canon(c1.V), st.store.canon(c2.V))
    memo = E.__dict__.setdefault('memo', {})
    if key not in memo:
        memo[key] = (Poly.sym(fresh('quot', 'i', 0, None)), Poly.sym(fresh('rem', 'i', 0, None)))
    q, rem = memo[key]
    st.store.add_eq(rem - (c1.V - c2.V * q))
    st.store.add_ge(rem)
    st.store.add_ge(c2.V - 1 - rem)
    assign(E, st, k1, q, 'quo')
    return out + [(st, 'ret', None)]


def mul_contract(E, st, x, G, args):
    """container_t mul(const container_t&, const container_t&) returned through args[0]"""
    r = two(st, args[1:])
    if r is None or not (is_canon(E, st, r[1]) and is_canon(E, st, r[3])):
        return None
    k1, c1, k2, c2 = r
    k = E.vec.ckey(args[0])
    if k is None:
        return None
    out = thrower(E, st, x, 'allocation')
    st.conts[k] = E.vec.empty('digit', c1.M, c1.esize)
    assign(E, st, k, c1.V * c2.V, 'prd')
    return out + [(st, 'ret', None)]


def opaque_contract(E, st, x, G, args):
    """a function that writes none of its operands and no variable: some number,
    the same for the same operands"""
    if len(args) != 3:
        return None
    r = two(st, args[1:])
    k = E.vec.ckey(args[0])
    if r is None or k is None:
        return None
    c1, c2 = r[1], r[3]
    S = st.store
    key = (G.name, S.canon(c1.V), S.canon(c1.size), S.canon(c2.V), S.canon(c2.size))
    memo = E.__dict__.setdefault('memo', {})
    if key not in memo:
        memo[key] = (Poly.sym(fresh('opaque', 'i', 0, None)), Poly.sym(fresh('nopaque', 'i', 0, SIZEMAX)))
    V, n = memo[key]
    out = thrower(E, st, x, 'allocation')
    d = mk(st, 'opq', 'digit', c1.M, c1.esize, n)
    st.store.add_eq(d.V - V)
    st.store.add_ge(E.R.W(n) - 1 - V)
    st.store.add_ge(V)
    st.conts[k] = d._replace(V=V)
    wrote(st, k)
    return out + [(st, 'ret', None)]


def double_contract(argno):
    """a helper that doubles the number in its container argument"""
    def h(E, st, x, G, args):
        k, c = get(None, st, args[argno])
        if c is None or c.kind != 'digit' or not is_canon(E, st, c):
            return None
        out = failed(E, st, x, k)
        assign(E, st, k, c.V * 2, 'dbl')
        return out + [(st, 'ret', None)]
    return h
