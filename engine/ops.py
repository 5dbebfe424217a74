"""Scenarios: one public operation on abstract numbers, in one digit system."""
from common import *
import kernels as K_
import time

POS, NEG, NAN, PINF, NINF = range(5)
DNAME = ('BN_POS', 'BN_NEG', 'BN_NAN', 'BN_POS_INF', 'BN_NEG_INF')
OPS = {'+': 'operator+', '-': 'operator-', '*': 'operator*', '/': 'operator/',
       '+=': 'operator+=', '-=': 'operator-=', '*=': 'operator*=', '/=': 'operator/='}
RELS = {'==': 'operator==', '!=': 'operator!=', '<': 'operator<', '<=': 'operator<=', '>': 'operator>', '>=': 'operator>='}


class Anchor(Exception):
    """something the analysis relies on is not in the program any more"""


def wit(P, name):
    g = P.globals.get(name)
    if not g or 'init' not in g:
        raise Anchor('witness constant %s' % name)
    d = {}
    for it in g['init']:
        if it[1] == 'val':
            d[it[0]] = int(it[2][1])
        elif it[1] == 'zero':
            for o in range(it[0], it[0] + it[2]):
                d.setdefault(o, 0)
    return d


class Sys:
    """one digit system of the program under analysis"""

    def __init__(self, P, name):
        self.P, self.name = P, name
        self.elem, self.B = SYSTEMS[name]
        self.R = Radix(self.B)
        self.kind, self.M, self.es = elem_info(self.elem)
        assert self.M == self.B - 1
        d = wit(P, 'wit_desc')
        self.desc = [d[4 * i] for i in range(5)]
        lay = wit(P, 'wit_layout')
        self.od, self.oc = lay[0], lay[4]

    def fn(self, base, nparams=None, pred=None):
        r = [F for F in find_fn(self.P, base, self.elem) if pred is None or pred(F)]
        if nparams is not None:
            r = [F for F in r if len(split_top(F.q.params)) == nparams]
        if not r:
            raise Anchor('%s of %s' % (base, self.name))
        return r[0]

    def kernel(self, base):
        r = find_fn(self.P, base, self.elem)
        return r[0] if r else None


def number(sy, st, name, desc, size=None, canonical=True, patt=None):
    """a number object; size None: any length; an integer: that many symbolic digits"""
    obj = ('arg', name)
    if desc is not None:
        st.mem[(obj, sy.od)] = (C(sy.desc[desc]), 4)
    k = (obj, sy.oc)
    if size is None:
        n = Poly.sym(fresh('n' + name, 'i', 0, SIZEMAX))
        st.conts[k] = vec.mk(st, name, sy.kind, sy.M, sy.es, n, canonical)
    elif size == 'zero':
        st.conts[k] = vec.explicit_of(sy.R, sy.kind, sy.M, sy.es, [ZERO])
    else:
        # 'max', 'zero': known digits between the first and the last;
        # 'max@c', 'zero@c': any digits next to position c as well
        base, _, at = (patt or '').partition('@')
        free = {0, size - 1} | ({1} if patt == 'mixed' else set()) | ({int(at) - 1, int(at), int(at) + 1} if at else set())
        ds = [Poly.sym(fresh('%s[%d]' % (name, i), 'i', 0, sy.M)) if patt is None or i in free
              else C(sy.M if base == 'max' else 0) for i in range(size)]
        if canonical and ds:
            st.store.add_ge(ds[-1] - 1)
        st.conts[k] = vec.explicit_of(sy.R, sy.kind, sy.M, sy.es, ds)
    return Ptr(obj, 0)


def digits(sy, st, name, size=None, canonical=True):
    """a digit container that is not inside a number"""
    p = number(sy, st, name, None, size, canonical)
    return Ptr(p.obj, sy.oc)


def contracts_for(proved):
    """contract table of the kernels proved in this system"""
    con = {}
    for n, r in K_.CMP.items():
        if n in proved:
            con[n] = K_.cmp_contract(r)
    if 'abs_val_add' in proved:
        con['abs_val_add'] = K_.both(K_.add_contract, K_.alias_contract(2) if 'abs_val_add@alias' in proved else None)
    if 'abs_val_sub' in proved:
        con['abs_val_sub'] = K_.both(K_.sub_contract, K_.alias_contract(0) if 'abs_val_sub@alias' in proved else None)
    if 'abs_val_div' in proved:
        con['abs_val_div'] = K_.div_contract
    if 'mul_naive' in proved:
        con['mul_naive'] = K_.mul_contract
    if 'mul_strassen' in proved:
        con['mul_strassen'] = K_.mul_contract
    for k in proved:
        if k.startswith('opaque:') and k[7:] not in con:
            con[k[7:]] = K_.opaque_contract
        if k.startswith('double:'):
            con[k[7:]] = K_.double_contract(1)
    return con


class Run:
    """the abstract outcome of one operation"""


def run_op(sy, op, da, db, alias=False, sizes=(None, None), con=None, exc=False, peel=0, canonical=True, pre=None, budget=400000, classes=False, patt=(None, None), product=None):
    E = Engine(sy.P, sy.R, contracts=con or {}, exc=exc, budget=budget)
    E.peel = peel
    E.classes = classes
    st = new_state(sy.R)
    a = number(sy, st, 'A', da, sizes[0], canonical, patt[0])
    b = a if alias else number(sy, st, 'B', db, sizes[1], canonical, patt[1])
    r = Run()
    r.sy, r.op, r.da, r.db, r.alias, r.E = sy, op, da, (da if alias else db), alias, E
    r.VA = st.conts[(a.obj, sy.oc)].V
    r.VB = st.conts[(b.obj, sy.oc)].V
    r.nA = st.conts[(a.obj, sy.oc)].size
    r.nB = st.conts[(b.obj, sy.oc)].size
    r.cA, r.cB = st.conts[(a.obj, sy.oc)], st.conts[(b.obj, sy.oc)]
    if pre:
        pre(st, r)
    F = sy.fn('Bignum::' + (OPS.get(op) or RELS[op]), 1)
    r.F = F
    if op in ('+', '-', '*', '/'):
        res = Ptr(('arg', 'R'), 0)
        args = [res, a, b]
    else:
        res = a
        args = [a, b]
    r.res = res
    t = time.time()
    r.states = E.call_fn(F, args, st)
    r.product = product
    if product:
        # the same operands, copied, through the compound operator
        G = sy.fn('Bignum::' + OPS[product], 1)
        out = []
        for s, k, v in r.states:
            if k != 'ret' or s.store.dead:
                out.append((s, k, (k, v)))
                continue
            for n, c, d in (('A2', r.cA, da), ('B2', r.cB, r.db)):
                s.conts[(('arg', n), sy.oc)] = c
                s.mem[(('arg', n), sy.od)] = (C(sy.desc[d]), 4)
            for s2, k2, v2 in E.call_fn(G, [Ptr(('arg', 'A2'), 0), Ptr(('arg', 'B2'), 0)], s):
                out.append((s2, k2, (k, v)))
        r.states = out
    r.time = time.time() - t
    return r


def result(r, s):
    """(descriptor code or None, container) of the result object"""
    sy = r.sy
    d = s.mem.get((r.res.obj, sy.od))
    c = s.conts.get((r.res.obj, sy.oc))
    dd = desc_index(sy, s, d)
    return dd, c


def desc_index(sy, s, d):
    dd = None
    if d is not None and isinstance(d[0], Poly):
        v = s.store.canon(d[0])
        if v.is_const() and v.cval() in sy.desc:
            dd = sy.desc.index(v.cval())
    return dd


def sgn(d):
    return -1 if d == NEG else 1


def prove_eq(st, p):
    return st.store.prove_eq(p) or st.store.infeasible([p])


class Goal:
    """a fact required of one final state: polys that must be >= 0, == 0 or
    != 0, a container without leading zero digit, or a plain truth value;
    unknown: nothing can be said"""

    def __init__(self, text, ge=(), eq=(), ne=(), truth=None, canon=None, unknown=False):
        self.text, self.ge, self.eq, self.ne, self.truth, self.canon, self.unknown = text, list(ge), list(eq), list(ne), truth, canon, unknown

    def canon_poly(self, st):
        R = st.store.radix
        return self.canon.V * R.B - R.W(self.canon.size) + 1

    def proved(self, st):
        if self.unknown:
            return False
        S = st.store
        if self.truth is not None:
            return bool(self.truth) or S.infeasible(())
        if self.canon is not None:
            c = self.canon
            K_.top_fact(S, c)
            if not prove_by_cases(S, self.canon_poly(st), [c.V, S.radix.W(c.size)]):
                ct = c.base
                if not (ct is not None and ct.canon and c.V == ct.V and S.canon(c.size - ct.size) == ZERO):
                    return False
        for p in self.eq:
            if not (S.prove_eq(p) or S.infeasible([p])):
                return False
        for p in self.ne:
            if not (S.prove(p - 1) or S.prove(-p - 1)):
                t, u = S.copy(), S.copy()
                t.add_eq(p)
                if not (t.dead or t.infeasible([p])):
                    return False
        for p in self.ge:
            if not prove_by_cases(S, p, ()):
                return False
        return True

    def negations(self, st):
        """alternatives, each a list of polys >= 0, under which the goal fails"""
        if self.unknown:
            return []
        if self.truth is not None:
            return [] if self.truth else [[]]
        out = [[-p - 1] for p in self.ge]
        if self.canon is not None:
            out.append([-self.canon_poly(st) - 1])
        for p in self.eq:
            out += [[p - 1], [-p - 1]]
        for p in self.ne:
            out += [[p, -p]]
        return out
