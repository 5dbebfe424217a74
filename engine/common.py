"""The seven number systems and helpers to build entry states."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lin import *
from ir import *
import sym
from sym import *
import vec

# element type as the compiler prints it -> radix (independent of the code under test)
SYSTEMS = {
    'lowp': ('unsigned char', 256), 'medp': ('unsigned short', 65536), 'highp': ('unsigned int', 1 << 32),
    'base2': ('BNIntType<unsigned char, 2ul>', 2), 'base8': ('BNIntType<unsigned short, 8ul>', 8),
    'base10': ('BNIntType<unsigned int, 10ul>', 10), 'base16': ('BNIntType<unsigned int, 16ul>', 16),
}


def find_fn(P, base, elem, nargs=None):
    """the instantiation of a function template for one digit type"""
    vt = 'std::vector<%s, ' % elem
    r = [F for F in P.fns.values() if not F.decl and F.q.base == base and vt in F.dem
         and (F.q.targs or F.q.cargs or F.q.params)]
    r = [F for F in r if first_vec(F.dem) == elem]
    if nargs is not None:
        r = [F for F in r if len(F.args) == nargs]
    return r


def first_vec(s):
    i = s.find('std::vector<')
    if i < 0:
        return None
    i += len('std::vector<')
    return split_top(s[i:_angle_end(s, i - 1)])[0]


def _angle_end(s, i):
    return _angle(s, i)


from ir import _angle


def cont_arg(st, name, elem, canonical=True, off=0, minsize=0):
    """a digit container argument with arbitrary content; returns its pointer"""
    kind, M, es = elem_info(elem)
    n = Poly.sym(fresh('n' + name, 'i', 0, SIZEMAX))
    if minsize:
        st.store.add_ge(n - minsize)
    obj = ('arg', name)
    st.conts[(obj, off)] = vec.mk(st, name, kind, M, es, n, canonical)
    return Ptr(obj, off)


def prove_by_cases(S, p, focus=()):
    """p >= 0, with the negation available to the weight lemmas"""
    if S.prove(p):
        return True
    t = S.copy()
    t.add_ge(-p - 1)
    return t.dead or t.infeasible([p] + list(focus))


def saturate(st):
    """add the order of sizes that follows from the values"""
    R = st.store.radix
    cs = [c for c in st.conts.values() if c.kind == 'digit']
    for a in cs:
        for b in cs:
            if a is not b:
                p = st.store.canon(a.size - b.size)
                if not p.is_const() and prove_by_cases(st.store, p, [a.V, b.V, R.W(a.size), R.W(b.size)]):
                    st.store.add_ge(p)
