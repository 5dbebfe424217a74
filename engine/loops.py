"""Loop summaries: inductive equalities over a data-driven polynomial basis
(greatest fixpoint of a linear space) and inductive inequalities (Houdini)."""
from fractions import Fraction
from lin import *
from ir import *
import lin
import sym as S_

FIELDS = ('size', 'V', 'of', 'ou', 'bl')


def run_body(self, F, h, st, frame):
    loop = loops(F)[h]
    n = len(self.outer)
    for x in phis(F, h):
        v = st.regs.get(x['id'])
        if (type_bits(x['ty']) or 0) >= 64 and isinstance(v, Poly) and v.single() is not None:
            self.outer.append(v)
    self.loopdepth += 1
    try:
        return self.run_region_from_header(F, h, st, loop, frame)
    finally:
        self.loopdepth -= 1
        del self.outer[n:]


def phis(F, h):
    r = []
    for x in F.blocks[h]:
        if x['op'] != 'phi':
            break
        r.append(x)
    return r


def norm_head(E, st, F, h):
    """[(state)] with the integer phis normalised to their unsigned range"""
    states = [st]
    for x in phis(F, h):
        w = type_bits(x['ty'])
        if not w:
            continue
        nxt = []
        for s in states:
            v = s.regs.get(x['id'])
            if not isinstance(v, Poly):
                if v is None or v is S_.UNDEF:
                    nxt.append(s)
                    continue
                if isinstance(v, (S_.PInt,)):
                    nxt.append(s)
                    continue
                v = E.as_int(s, v, x['ty'])
            for s2, p in E.norm(s, v, w):
                s2.regs[x['id']] = p
                nxt.append(s2)
        states = nxt
    return states


def comps(E, st, F, h):
    """component -> value at the loop header"""
    out = {}
    S = st.store
    for x in phis(F, h):
        v = st.regs.get(x['id'])
        if isinstance(v, Poly):
            out[('reg', x['id'])] = S.canon(v)
        elif isinstance(v, S_.EPtr):
            out[('reg', x['id'], 'i')] = S.canon(v.idx)
            out[('reg', x['id'], 'c')] = ('ptr', v.c, v.sub)
        else:
            out[('reg', x['id'], 'c')] = v
    for k, (v, sz) in st.mem.items():
        if isinstance(v, Poly):
            out[('mem', k)] = S.canon(v)
        elif isinstance(v, S_.EPtr):
            out[('mem', k, 'i')] = S.canon(v.idx)
            out[('mem', k, 'c')] = ('ptr', v.c, v.sub)
        else:
            out[('mem', k, 'c')] = v
    for k, c in st.conts.items():
        for f in FIELDS:
            v = getattr(c, f)
            if v is not None:
                out[('cont', k, f)] = S.canon(v)
        out[('cont', k, 'base')] = c.base
        out[('cont', k, 'tag')] = c.tag
    return out


class Loop:
    pass


def symhi(E, comp, v, st, F, h):
    if comp[0] == 'reg' and len(comp) == 2:
        for x in phis(F, h):
            if x['id'] == comp[1]:
                return (1 << type_bits(x['ty'])) - 1
    if comp[0] == 'mem' and len(comp) == 2:
        return (1 << (8 * st.mem[comp[1]][1])) - 1
    if comp[0] == 'cont':
        return S_.SIZEMAX if comp[2] == 'size' else None
    return None


def nm(comp):
    if comp[0] == 'reg':
        return 'r%s' % comp[1]
    if comp[0] == 'mem':
        return 'm%s' % (comp[1][1],)
    o = comp[1][0]
    return '%s_%s' % (o[-1] if isinstance(o, tuple) else o, comp[2])


def generic(E, L, entry):
    """header state with every changed component replaced by its symbol"""
    g = entry.copy()
    g.path = ()
    S = g.store
    byc = {}
    for comp in sorted(L.changed, key=repr):
        if comp[0] == 'cont':
            byc.setdefault(comp[1], set()).add(comp[2])
    for comp in L.changed:
        if comp[0] == 'cont':
            continue
        if comp[-1] == 'c':
            v = S_.UNDEF
            E.inexact(g, 'non-integer value changes in a loop') if not isinstance(L.entry.get(comp), S_.FV) else None
            if isinstance(L.entry.get(comp), S_.FV):
                v = S_.FV('opaque', L.sym(comp).id)
            if comp[0] == 'reg':
                g.regs[comp[1]] = v
            else:
                g.mem[comp[1]] = (v, g.mem[comp[1]][1])
            continue
        p = Poly.sym(L.sym(comp))
        if comp[-1] == 'i':
            ct = L.entry[comp[:-1] + ('c',)]
            v = S_.EPtr(ct[1], p, ct[2])
        else:
            v = p
        if comp[0] == 'reg':
            g.regs[comp[1]] = v
        else:
            g.mem[comp[1]] = (v, g.mem[comp[1]][1])
    for k, fs in byc.items():
        c = g.conts[k]
        if fs == {'tag'}:
            g.conts[k] = c._replace(tag=None)
            continue
        new = {}
        for f in fs:
            if f in FIELDS:
                new[f] = Poly.sym(L.sym(('cont', k, f)))
        c2 = c._replace(dm=(), ver=c.ver + 1, tag=None if 'tag' in fs else c.tag, **new)
        if 'base' in fs:
            # name the current content
            if k not in L.bases:
                ct = Content('L%s' % nm(('cont', k, 'b')), c2.size, c.M)
                ct.digits = c.kind == 'digit'
                if 'V' in fs:
                    ct.V = Poly.sym(L.sym(('cont', k, 'V')))
                else:
                    ct.V = None
                L.bases[k] = ct
            ct = L.bases[k]
            ct.size = c2.size
            if ct.V is None or c.V is None:
                c2 = c2._replace(base=None, of=ZERO, ou=ZERO, bl=ZERO)
            else:
                c2 = c2._replace(base=ct, of=ZERO, ou=ZERO, bl=c2.size)
        g.conts[k] = c2
    for k in byc:
        c = g.conts[k]
        S.add_ge(c.size - c.bl)
        if c.kind == 'digit':
            E.vec.vfacts(E, g, k)
    for p in L.eqs:
        S.add_eq(p)
    for p in L.ges:
        S.add_ge(p)
    return g


def env_of(L, cs):
    """symbol id -> value for a component valuation"""
    return {s.id: cs[c] for c, s in L.syms.items() if c in cs and isinstance(cs[c], Poly)}


def find_changed(E, L, F, h, frame, entry, items=None):
    """grow L.changed until the body changes nothing else; contracts apply
    optimistically here, the result is checked again with the final facts"""
    rounds = 0
    while True:
        rounds += 1
        if items is None:
            opt, E.optimistic = E.optimistic, True
            try:
                items = run_body(E, F, h, generic(E, L, entry), frame)
            finally:
                E.optimistic = opt
        gc = comps(E, generic(E, L, entry), F, h)
        new = set()
        for it in items:
            if it[0] != 'back':
                continue
            s = it[1]
            bc = comps(E, s, F, h)
            for c, v in gc.items():
                if c in L.changed:
                    continue
                if c[0] == 'cont' and c[2] in ('of', 'ou', 'bl') and ('cont', c[1], 'base') in L.changed:
                    continue
                w = bc.get(c)
                if isinstance(v, Poly) and isinstance(w, Poly):
                    if s.store.canon(v - w) != ZERO and not s.store.prove_eq(v - w):
                        new.add(c)
                elif v != w:
                    if w is None:
                        if c[0] == 'cont' and c[1] not in s.conts:
                            continue
                        if c[0] == 'mem' and c[1] not in s.mem:
                            continue
                    new.add(c)
                    if c[-1] in ('i', 'c') and c[:-1] + ('i',) in gc:
                        # pointer to another container
                        if c[-1] == 'c':
                            new.add(c[:-1] + ('i',))
        if not new:
            return items
        # a pure content change of the tag or the regions follows the value
        L.changed |= new
        for c in list(L.changed):
            if c[0] == 'cont' and c[2] in ('of', 'ou', 'bl') and ('cont', c[1], 'base') in L.changed:
                L.changed.discard(c)
        for c in list(L.changed):
            if c[0] == 'cont' and c[2] in FIELDS + ('base',):
                k = c[1]
                if entry.conts[k].V is not None:
                    if ('cont', k, 'base') in L.changed:
                        for f in ('size', 'V'):
                            L.changed.add(('cont', k, f))
                    else:
                        L.changed.add(('cont', k, 'V'))
        items = None
        if rounds > 12:
            raise S_.Budget('loop components')


def basis(E, L, F, h, entry, backs):
    """polynomials over the loop symbols"""
    out = []
    seen = set()

    def add(p):
        p = lin._int(p)
        if p.is_const() or p in seen:
            return
        seen.add(p)
        out.append(p)
    chs = {s.id for c, s in L.syms.items() if c in L.changed}
    ints = []
    for c in sorted(L.changed, key=repr):
        if c not in L.syms or c[-1] in ('c', 'base', 'tag'):
            continue
        p = Poly.sym(L.syms[c])
        add(p)
        if not (c[0] == 'cont' and c[2] == 'V'):
            ints.append((L.syms[c], p))

    def invariant(m):
        for s, e in m:
            if s in chs:
                return False
            d = set()
            lin.collect_inner(s, d)
            if d & chs:
                return False
        return True

    def known(m):
        """monomial only over symbols that exist at the header"""
        for s, e in m:
            if s >= L.symmark and s not in chs:
                S = SYMS[s]
                if S.kind in ('W', 'P', 'd'):
                    d = set()
                    lin.collect_inner(s, d)
                    if all(x < L.symmark or x in chs for x in d):
                        if S.kind == 'W' or S.key[1] not in L.newbases():
                            continue
                return False
        return True

    def shifts(m):
        """monomial with the constant part of weights stripped"""
        return m

    idxs = [p for s, p in ints]
    # digit reads along the paths
    for s, bc in backs:
        polys = []
        for c in L.changed:
            if c in bc and isinstance(bc[c], Poly):
                polys.append((c, bc[c]))
        digs = set()
        for n in s.store.ge:
            for m in n.t:
                for y, e in m:
                    if SYMS[y].kind == 'd':
                        digs.add(y)
        for rhs in list(s.store.eqs.values()):
            for m in rhs.t:
                for y, e in m:
                    if SYMS[y].kind == 'd':
                        digs.add(y)
        for y in list(s.store.eqs):
            if SYMS[y].kind == 'd':
                digs.add(y)
        for c, p in polys:
            old = Poly.sym(L.syms[c]) if c in L.syms else ZERO
            d = s.store.canon(p - old)
            isV = c[0] == 'cont' and c[2] == 'V'
            for m, co in d.t.items():
                for y, e in m:
                    S = SYMS[y]
                    if S.kind == 'd' and e == 1:
                        digs.add(y)
                        if isV or True:
                            # multiplier of the prefix sum
                            idx = S.key[2]
                            rest = Poly({tuple((a, b) for a, b in m if a != y): 1})
                            kap = rest * _winv(E.R, idx)
                            (km, kc), = kap.t.items()
                            if invariant(km) and S.key[1] not in L.newbases():
                                b = idx.nonconst()
                                ii = [q for q in idxs if (b - q).nonconst() == ZERO or not ((b - q).syms() & chs)]
                                for q in ii[:2]:
                                    if known(km):
                                        add(Poly({km: 1}) * E.R.P(S.key[1], idx - idx.cval() if q == b else q + (b - q)))
                if isV and len(m) >= 1:
                    # weighted carries: keep the monomial itself
                    if any(y in chs and e == 1 for y, e in m) and known(m):
                        add(Poly({m: 1}))
        for y in digs:
            S = SYMS[y]
            ct, idx = S.key[1], S.key[2]
            if ct in L.newbases():
                continue
            if idx.syms() & chs and idx.is_linear():
                add(E.R.P(ct, idx.nonconst()))
    # products of a changing value with an invariant one
    inv = []
    for k, c in entry.conts.items():
        if c.kind == 'digit' and c.V is not None and not any(('cont', k, f) in L.changed for f in ('V', 'size', 'base')):
            v = entry.store.canon(c.V)
            if not v.is_const() and len(v.t) == 1 and v not in inv:
                inv.append(v)
    if len(inv) <= 3:
        for c in sorted(L.changed, key=repr):
            if c[0] == 'cont' and c[2] == 'V' and c in L.syms:
                for v in inv:
                    add(v * Poly.sym(L.syms[c]))
    for p in E.extra_basis:
        for q in p(E, L, entry):
            add(q)
    return out


def _winv(R, idx):
    w = R.W(idx)
    (m, c), = w.t.items()
    return Poly({tuple((s, -e) for s, e in m): (1 if c == 1 else Fraction(1, c))})


def kernel(rows, n):
    """rational basis of {x : row.x = 0 for all rows}; rows: dict col->val"""
    piv = []
    for r in rows:
        r = {k: Fraction(v) for k, v in r.items() if v}
        for pc, pr in piv:
            if pc in r:
                f = r[pc]
                for k, v in pr.items():
                    nv = r.get(k, 0) - f * v
                    if nv:
                        r[k] = nv
                    else:
                        r.pop(k, None)
        if not r:
            continue
        pc = min(r)
        f = r[pc]
        r = {k: v / f for k, v in r.items()}
        for i, (c2, p2) in enumerate(piv):
            if pc in p2:
                f = p2[pc]
                q = dict(p2)
                for k, v in r.items():
                    nv = q.get(k, 0) - f * v
                    if nv:
                        q[k] = nv
                    else:
                        q.pop(k, None)
                piv[i] = (c2, q)
        piv.append((pc, r))
    pcs = {c for c, _ in piv}
    out = []
    for j in range(n):
        if j in pcs:
            continue
        v = {j: Fraction(1)}
        for pc, r in piv:
            if j in r:
                v[pc] = -r[j]
        out.append(v)
    return out


def equalities(E, L, F, h, entry, backs, fs):
    """greatest inductive subspace of centred basis functions"""
    R = E.R
    ent = env_of(L, L.entry)
    g = []
    for f in fs:
        try:
            f0 = entry.store.canon(subst(f, ent, R))
        except ValueError:
            continue
        g.append(f - f0)
    if not g:
        return []
    # candidate space: combinations; vec = dict index->coef
    space = [{i: Fraction(1)} for i in range(len(g))]
    paths = []
    for s, bc in backs:
        env = env_of(L, bc)
        vals = []
        ok = True
        for p in g:
            try:
                vals.append(s.store.canon(subst(p, env, R)))
            except ValueError:
                ok = False
                break
        if not ok:
            return []
        paths.append((s, vals))
    for it in range(14):
        E_ = [comb(v, g) for v in space]
        rows = []
        cols = {}
        for s, vals in paths:
            t = s.store.copy()
            gs, t.ge, t.lemmas = t.ge, {n: b for n, b in t.ge.items() if n.is_linear() and len(n.t) <= 3}, []
            for e in E_:
                t.add_eq(e)
                if t.dead:
                    break
            if t.dead:
                continue
            red = [t.canon(x) for x in vals]
            ech = echelon([t.canon(e) for e in E_])
            red = [reduce_by(x, ech) for x in red]
            # sum_j mu_j * (sum_i space[j][i]*red[i]) = 0
            tot = [comb(v, red) for v in space]
            if E.trace > 2 and it == 0:
                print('     red', tot)
            mons = set()
            for p in tot:
                mons |= set(p.t)
            for m in mons:
                row = {}
                for j, p in enumerate(tot):
                    cval = p.t.get(m)
                    if cval:
                        row[j] = cval
                rows.append(row)
        K = kernel(rows, len(space))
        if E.trace > 1:
            print('    karr', it, len(space), '->', len(K), E_[:12])
        if len(K) == len(space):
            return E_
        nsp = []
        for v in K:
            d = {}
            for j, mu in v.items():
                for i, c in space[j].items():
                    n = d.get(i, 0) + mu * c
                    if n:
                        d[i] = n
                    else:
                        d.pop(i, None)
            nsp.append(d)
        space = nsp
        if not space:
            return []
    return []


def echelon(polys):
    out = []
    for p in polys:
        p = reduce_by(p, out)
        if p.is_const():
            continue
        m = max((m for m in p.t if m), key=lambda m: (len(m), m))
        p = p * Fraction(1, p.t[m])
        out = [(m2, q - p * q.t[m] if m in q.t else q) for m2, q in out]
        out.append((m, p))
    return out


def reduce_by(p, ech):
    for m, q in ech:
        c = p.t.get(m)
        if c:
            p = p - q * c
    return lin._int(p)


def comb(v, g):
    r = ZERO
    for i, c in v.items():
        r = r + g[i] * (int(c) if c.denominator == 1 else c)
    return lin._int(r)


def candidates(E, L, F, h, entry, backs):
    R = E.R
    out = []
    xs, vs, narrow = [], [], []
    for c in sorted(L.changed, key=repr):
        if c not in L.syms or c[-1] in ('c', 'base', 'tag'):
            continue
        p = Poly.sym(L.syms[c])
        if c[0] == 'cont' and c[2] == 'V':
            vs.append((c, p))
            continue
        w = None
        if c[0] == 'reg' and len(c) == 2:
            w = [type_bits(x['ty']) for x in phis(F, h) if x['id'] == c[1]][0]
        elif c[0] == 'mem' and len(c) == 2:
            w = 8 * entry.mem[c[1]][1]
        consts = set()
        for s, bc in backs:
            v = bc.get(c)
            if isinstance(v, Poly) and v.is_const():
                consts.add(v.cval())
        e = L.entry[c]
        if e.is_const():
            consts.add(e.cval())
        for k in consts:
            out.append(C(k) - p)
            out.append(p - k)
        for k in (1, R.B - 1, R.B):
            out.append(C(k) - p)
        xs.append((c, p, w))
    inv = []
    for k, c in entry.conts.items():
        if ('cont', k, 'size') not in L.changed:
            n = entry.store.canon(c.size)
            if not n.is_const() and n not in inv:
                inv.append(n)
    for c, p, w in xs:
        e = L.entry[c]
        if not e.is_const() and e not in inv:
            inv.append(e)
    for v in getattr(E, 'extra_inv', ()):
        inv.append(v)
    # what the loop compares with and does not change
    body = loops(F)[h]
    inside = {x['id'] for b in body for x in F.blocks[b] if 'id' in x}
    for b in sorted(body):
        for x in F.blocks[b]:
            if x['op'] == 'icmp':
                for o in x['ops']:
                    v = entry.regs.get(o[1]) if o[0] == 'v' and o[1] not in inside else None
                    if isinstance(v, Poly):
                        v = entry.store.canon(v)
                        if not v.is_const() and v not in inv:
                            inv.append(v)
    big = [(c, p) for c, p, w in xs if w is None or w >= 64 or c[0] == 'cont' or c[-1] == 'i']
    for i, (c, p) in enumerate(big):
        for q in inv:
            for k in (0, 1):
                out.append(p - q - k)
                out.append(q - p - k)
        for c2, p2 in big[i + 1:]:
            for k in (0, 1):
                out.append(p - p2 - k)
                out.append(p2 - p - k)
            out.append(p - p2 + 1)
            out.append(p2 - p + 1)
            for q in inv:
                out.append(q - p - p2)
        if c[0] == 'cont' and c[2] in ('of', 'ou'):
            for c2, p2 in big:
                if c2[0] == 'cont':
                    continue
                for q in inv:
                    out.append(p2 + q - p)
            # positions relative to the counters of the enclosing loops
            for o in E.outer[-3:]:
                for q in inv:
                    out.append(o + q - p)
                for c2, p2 in big:
                    if c2[0] != 'cont':
                        out.append(o + p2 - p)
                        out.append(p - o - p2)
    # narrow slots among each other are skipped; values of containers
    for i, (c, p) in enumerate(vs):
        k = c[1]
        n = Poly.sym(L.syms[('cont', k, 'size')]) if ('cont', k, 'size') in L.changed else entry.conts[k].size
        out.append(p * R.B - R.W(n) + 1)
        for c2, p2 in vs[i + 1:]:
            out.append(p - p2)
            out.append(p2 - p)
        for k2, c2 in entry.conts.items():
            if c2.kind == 'digit' and ('cont', k2, 'V') not in L.changed and c2.V is not None:
                v = entry.store.canon(c2.V)
                if not v.is_const():
                    out.append(p - v)
                    out.append(v - p)
        e = entry.store.canon(L.entry[c])
        if not e.is_const():
            out.append(p - e)
            out.append(e - p)
        out.append(p - 1)
    seen, res = set(), []
    for p in out:
        if p.is_const() or p in seen:
            continue
        seen.add(p)
        res.append(p)
    return res


def filter_entry(E, L, entry, cands):
    ent = env_of(L, L.entry)
    r = []
    for p in cands:
        try:
            q = subst(p, ent, E.R)
        except ValueError:
            continue
        if entry.store.prove(q):
            r.append(p)
    return r


def loop_loc(F, h):
    for x in F.blocks[h]:
        if x.get('loc') and x['loc'][1]:
            return tuple(x['loc'])
    return (F.file, F.line, 0)


def run_loop(self, F, h, st, frame):
    E = self
    states = norm_head(E, st, F, h)
    out = []
    if E.peel:
        return peel(E, F, h, states, frame)
    for s in states:
        if s.store.dead:
            continue
        out += run_loop1(E, F, h, s, frame)
    return out


def stuck(E, F, h, s, t):
    """an iteration came back to the header with nothing changed"""
    a, b = comps(E, s, F, h), comps(E, t, F, h)
    if set(a) != set(b) or s.inx != t.inx or s.events != t.events:
        return False
    S = t.store
    for k, v in a.items():
        if (S.canon(v) if isinstance(v, Poly) else v) != b[k]:
            return False
    cd = lambda c: {S.canon(i): S.canon(d) for i, d in c.dm}
    for k, c in s.conts.items():
        d = t.conts[k]
        if c.kind == 'digit':
            if c.V is None or cd(c) != cd(d):
                return False
        elif c.elems != d.elems or c.elems is None and c is not d:
            return False
    return True


def same_content(S, s, t, k):
    c, d = s.conts[k], t.conts.get(k)
    if d is None:
        return False
    cd = lambda c: {S.canon(i): S.canon(x) for i, x in c.dm}
    if c.kind == 'digit':
        return c.V is not None and c.base is d.base and cd(c) == cd(d)
    return c.elems == d.elems and (c.elems is not None or c is d)


def trapped(E, F, h, s, frame):
    """the header state s lies in a set of states that no iteration leaves"""
    saved = E.rec, E.peel, E.optimistic, E.computed
    E.rec, E.peel, E.optimistic, E.computed = False, 0, False, set()
    steps = E.steps
    try:
        return trapped1(E, F, h, s, frame, False) or trapped1(E, F, h, s, frame, True)
    except (S_.Budget, S_.Unsupported, ValueError, KeyError, AttributeError, TypeError, IndexError, AssertionError):
        return False
    finally:
        E.rec, E.peel, E.optimistic, E.computed = saved
        E.steps = steps


def trapped1(E, F, h, s, frame, wide):
    """wide: every component that may change without the facts of the entry"""
    entry = s.copy()
    L = Loop()
    L.changed, L.syms, L.bases, L.eqs, L.ges = set(), {}, {}, [], []
    L.symmark = len(SYMS)
    L.newbases = lambda: [b for b in L.bases.values()]
    L.entry = comps(E, entry, F, h)

    def sym_(c):
        y = L.syms.get(c)
        if y is None:
            y = L.syms[c] = fresh(nm(c), 'V' if c[0] == 'cont' and c[2] == 'V' else 'i', 0, symhi(E, c, L.entry.get(c), entry, F, h))
        return y
    L.sym = sym_
    known = set()
    if wide:
        find_changed(E, L, F, h, frame, entry)
        L.ges = []
    for it in range(12):
        for c in sorted(L.changed - known, key=repr):
            v = L.entry.get(c)
            if isinstance(v, Poly) and (c[0] != 'cont' or c[2] in ('size', 'V')):
                L.ges += [Poly.sym(sym_(c)) - v, v - Poly.sym(sym_(c))]
        known = set(L.changed)
        g = generic(E, L, entry)
        # a counter needs 2^40 iterations and more to wrap around: no such run ends
        wraps = [c for c in known if isinstance(L.entry.get(c), Poly) and c[0] != 'cont' and symhi(E, c, L.entry[c], entry, F, h) == (1 << 64) - 1]
        for c in wraps:
            g.store.add_ge(C(1 << 62) - Poly.sym(sym_(c)))
        items = run_body(E, F, h, g.copy(), frame)
        live = [i for i in items if not i[1].store.dead and not i[1].store.infeasible(())]
        if any(i[0] != 'back' for i in live) and not L.ges:
            return False
        bk = [(i[1], comps(E, i[1], F, h)) for i in live if i[0] == 'back']
        new = set()
        if not wide:
            gc = comps(E, g, F, h)
            for t, bc in bk:
                for c, v in gc.items():
                    if c in L.changed:
                        continue
                    w = bc.get(c)
                    if isinstance(v, Poly) and isinstance(w, Poly):
                        if t.store.canon(v - w) != ZERO and not t.store.prove_eq(v - w):
                            new.add(c)
                    elif v != w and w is not None:
                        new.add(c)
                        if c[-1] == 'c':
                            new.add(c[:-1] + ('i',))
                for k in g.conts:
                    if ('cont', k, 'base') not in L.changed and not same_content(t.store, g, t, k):
                        return False
        keep = []
        for p in L.ges:
            try:
                if all(t.store.prove(subst(p, env_of(L, bc), E.R)) for t, bc in bk):
                    keep.append(p)
            except ValueError:
                pass
        if len(keep) == len(L.ges) and not new:
            slow = all(isinstance(bc.get(c), Poly) and t.store.prove(Poly.sym(sym_(c)) + (1 << 20) - bc[c]) for c in wraps for t, bc in bk)
            return bool(bk) and len(bk) == len(live) and slow
        L.ges = keep
        L.changed |= new
    return False


def peel(E, F, h, states, frame):
    """the loop's iterations one after the other, each with its own states"""
    out = []
    loop = loops(F)[h]
    n = 0
    while states:
        n += 1
        if n > E.peel:
            E.cutoff = True
            break
        nxt = []
        for s in states:
            if s.store.dead:
                continue
            s0 = s.copy() if 'rank' in S_.WATCH else None
            for it in E.run_region(F, h, s, loop, h, frame):
                if it[0] == 'back':
                    if s0 is not None and stuck(E, F, h, s0, it[1]):
                        E.oblig('rank', it[1], False, {'loc': loop_loc(F, h)}, 'the loop makes progress')
                        continue
                    nxt.append(it[1])
                else:
                    out.append(it)
        if 'rank' in S_.WATCH and n in (5, 16, 64):
            held = [s for s in nxt if not s.store.dead and not s.inx][:3]
            for s in held:
                if trapped(E, F, h, s, frame):
                    E.oblig('rank', s, False, {'loc': loop_loc(F, h)}, 'the loop makes progress')
                    nxt.remove(s)
        if len(nxt) > E.peelwidth:
            E.cutoff = True
            nxt = nxt[::max(1, len(nxt) // E.peelwidth)][:E.peelwidth]
        states = nxt
    return out


def ranked(E, F, h, L, entry, g, bk, items):
    """a ranking function for the loop: something that is never negative and
    gets smaller in every iteration; lexicographic when one is not enough"""
    todo = [(s, env_of(L, bc)) for s, bc in bk if not s.store.dead and not s.store.infeasible(())]
    inst = {'loc': loop_loc(F, h)}
    syms = [Poly.sym(L.sym(c)) for c in L.changed if c[-1] != 'c' and (c[0] != 'cont' or c[2] in ('size', 'V'))]
    inv = set()
    for k, c in entry.conts.items():
        for f in ('size', 'V'):
            if ('cont', k, f) not in L.changed and getattr(c, f) is not None:
                inv.add(getattr(c, f))
    inv |= {p for p in L.entry.values() if isinstance(p, Poly) and not p.is_const()}
    for s, env in todo:
        for x in [y for b in loops(F)[h] for y in F.blocks[b] if y['op'] == 'icmp']:
            for o in x['ops']:
                if o[0] == 'v':
                    v = s.regs.get(o[1])
                    if isinstance(v, Poly):
                        inv.add(v)
    own = {v.id for v in L.syms.values()}
    inv = [p for p in inv if all(sid < L.symmark and sid not in own for m in p.t for sid, _ in m)]

    def new(m, env):
        try:
            return subst(m, env, E.R)
        except ValueError:
            return None
    cands = list(L.ges) + syms
    for x in syms:
        for u in inv:
            cands.append(u - x)
    for rnd in range(4):
        if not todo:
            break
        for m in cands:
            q = [(s, new(m, env), env) for s, env in todo]
            if any(y is None for s, y, env in q):
                continue
            if not all(s.store.prove(m - y) for s, y, env in q):
                continue
            strict = [s.store.prove(m - y - 1) and s.store.prove(y) for s, y, env in q]
            if any(strict):
                todo = [(s, env) for (s, y, env), ok in zip(q, strict) if not ok]
                break
        else:
            break
    if todo:
        for s, env in todo:
            E.oblig('rank', s, False, inst, 'the loop makes progress')
    else:
        E.oblig('rank', g, True, inst, 'the loop makes progress')


def run_loop1(E, F, h, entry, frame, changed=(), again=0):
    L = Loop()
    L.changed = set(changed)
    L.syms = {}
    L.bases = {}
    L.eqs, L.ges = [], []
    L.symmark = len(SYMS)
    L.newbases = lambda: [b for b in L.bases.values()]
    L.entry = comps(E, entry, F, h)

    def sym_(c):
        s = L.syms.get(c)
        if s is None:
            v = L.entry.get(c)
            kind = 'V' if c[0] == 'cont' and c[2] == 'V' else 'i'
            s = fresh(nm(c), kind, 0, symhi(E, c, v, entry, F, h))
            if kind == 'V':
                s.name = '%s#%d' % (nm(c), s.id)
            L.syms[c] = s
        return s
    L.sym = sym_
    rec, E.rec = E.rec, False
    ev0 = entry.events
    try:
        comp0, E.computed = E.computed, set()
        items = find_changed(E, L, F, h, frame, entry)
        named = [k for k in E.computed if k in entry.conts and entry.conts[k].V is not None and entry.conts[k].kind == 'digit'
                 and not any(c[0] == 'cont' and c[1] == k for c in L.changed)]
        E.computed |= comp0
        if named and again < 3:
            # digits the loop only reads get names, so that facts about them survive an iteration
            E.rec = rec
            entry = entry.copy()
            for k in sorted(named, key=repr):
                E.vec.rebase(E, entry, k)
            return run_loop1(E, F, h, entry, frame, changed, again + 1)
        backs = lambda its: [(i[1], comps(E, i[1], F, h)) for i in its if i[0] == 'back']
        bk = backs(items)
        if bk:
            allc = None
            for rnd in range(3):
                cands = filter_entry(E, L, entry, candidates(E, L, F, h, entry, bk))
                if rnd == 0:
                    L.ges = cands
                else:
                    have = set(cands)
                    L.ges = cands
                prev_eqs = list(L.eqs)
                # inequalities to a fixpoint, equalities checked along
                for it in range(10):
                    g = generic(E, L, entry)
                    if g.store.dead:
                        L.ges = []
                        g = generic(E, L, entry)
                    items = run_body(E, F, h, g, frame)
                    bk = backs(items)
                    fs = basis(E, L, F, h, entry, bk) if it < 4 else fs
                    eqs = equalities(E, L, F, h, entry, bk, fs)
                    keep = []
                    for p in L.ges:
                        ok = True
                        for s, bc in bk:
                            try:
                                q = subst(p, env_of(L, bc), E.R)
                            except ValueError:
                                ok = False
                                break
                            if not s.store.prove(q):
                                ok = False
                                break
                        if ok:
                            keep.append(p)
                    same_eq = len(eqs) == len(L.eqs) and all(implied(E, L, entry, eqs, p) for p in L.eqs)
                    stable = len(keep) == len(L.ges) and same_eq
                    if E.trace:
                        print('  loop %s:%d round %d.%d backs=%d ges %d->%d eqs %d->%d' % (F.q.base, loop_loc(F, h)[1], rnd, it, len(bk), len(L.ges), len(keep), len(L.eqs), len(eqs)))
                    grew = len(eqs) > len(L.eqs)
                    L.ges = keep
                    L.eqs = eqs
                    if stable:
                        break
                else:
                    L.eqs, L.ges = [], []
                    E.unstable = getattr(E, 'unstable', 0) + 1
                    g = generic(E, L, entry)
                    items = run_body(E, F, h, g, frame)
                    bk = backs(items)
                if rnd and len(prev_eqs) == len(L.eqs):
                    break
    finally:
        E.rec = rec
    if bk and E.classes == 'first':
        cls = None
        if E.loopdepth == 0:
            rec, E.rec = E.rec, False
            try:
                cls = split_first(E, L, F, h, frame, entry, bk)
            finally:
                E.rec = rec
    elif bk and E.classes:
        rec, E.rec = E.rec, False
        try:
            cls = split(E, L, F, h, frame, entry, bk)
        finally:
            E.rec = rec
    else:
        cls = None
    items, bk = [], []
    if cls is None:
        g = generic(E, L, entry)
        items = run_body(E, F, h, g, frame)
    else:
        for facts in cls:
            g = generic(E, L, entry)
            for p in facts:
                g.store.add_ge(p)
            if not g.store.dead:
                items += run_body(E, F, h, g, frame)
        g = generic(E, L, entry)
    bk = [(i[1], comps(E, i[1], F, h)) for i in items if i[0] == 'back']
    if E.trace:
        print('LOOP %s:%d changed=%s' % (F.q.base, loop_loc(F, h)[1], sorted(map(nm, L.changed))))
        for p in L.eqs:
            print('   = ', p)
        for p in L.ges:
            print('   >=', p)
        for c in cls or ():
            print('   class', c)
    n0 = set(L.changed)
    find_changed(E, L, F, h, frame, entry, [i for i in items])
    if L.changed != n0:
        if again > 5:
            raise S_.Budget('loop components')
        return run_loop1(E, F, h, entry, frame, L.changed, again + 1)
    if rec:
        for hk in E.loophooks:
            hk(E, F, h, L, entry, g, bk, items)
    res = []
    for it in items:
        if it[0] == 'back':
            continue
        s = it[1]
        s.path = entry.path + (('loop', F.name, h),) + s.path
        E.inexact(s, 'loop summary')
        res.append(it)
    return res


def atoms(E, L, F, h, entry, g):
    """predicates that partition the loop header's states"""
    idx, sizes = [], []
    for c in sorted(L.changed, key=repr):
        if c not in L.syms or c[-1] in ('c', 'base', 'tag'):
            continue
        p = Poly.sym(L.syms[c])
        if c[0] == 'cont':
            if c[2] == 'size':
                sizes.append((p, L.entry[c]))
        else:
            w = 64
            if c[0] == 'reg' and len(c) == 2:
                w = [type_bits(x['ty']) for x in phis(F, h) if x['id'] == c[1]][0]
            elif c[0] == 'mem' and len(c) == 2:
                w = 8 * entry.mem[c[1]][1]
            idx.append((p, w))
    inv = []
    for k, c in entry.conts.items():
        if ('cont', k, 'size') not in L.changed:
            n = entry.store.canon(c.size)
            if not n.is_const() and n not in inv:
                inv.append(n)
    for p, e in sizes:
        if not e.is_const() and e not in inv:
            inv.append(e)
    out = []
    for p, w in idx:
        if w >= 64:
            for q in [x for x, _ in sizes] + inv:
                out.append(p - q)
        else:
            out.append(p - 1)
    for p, e in sizes:
        for q in inv:
            out.append(p - q - 1)
    for k, c in entry.conts.items():
        if ('cont', k, 'V') in L.changed and c.kind == 'digit' and entry.store.canon(c.V).is_const():
            out.append(Poly.sym(L.syms[('cont', k, 'V')]) - 1)
    # keep those the header state does not decide, one per equivalence class
    res, seen = [], set()
    S = g.store
    for p in out:
        q = S.canon(p)
        if q.is_const() or q in seen or S.prove(q) or S.prove(-q - 1):
            continue
        seen.add(q)
        res.append(p)
    return res[:6]


def signs(E, st, polys):
    """[(state, sign vector)]"""
    cur = [(st, ())]
    for p in polys:
        nxt = []
        for s, v in cur:
            for s2, t in E.fork(s, p):
                nxt.append((s2, v + (t,)))
        cur = nxt
    return cur


def split(E, L, F, h, frame, entry, bk):
    """disjunctive header facts: one set of inductive inequalities for every
    combination of the partitioning predicates; None if nothing is gained"""
    g = generic(E, L, entry)
    at = atoms(E, L, F, h, entry, g)
    if not at:
        return None
    vecs = []
    for s, v in signs(E, g.copy(), at):
        if not s.store.prove(C(-1)):
            vecs.append(v)
    pool = [C(-1)] + candidates(E, L, F, h, entry, bk)
    for k, c in entry.conts.items():
        if ('cont', k, 'V') in L.changed and c.kind == 'digit':
            v, n = Poly.sym(L.syms[('cont', k, 'V')]), Poly.sym(L.syms[('cont', k, 'size')]) if ('cont', k, 'size') in L.changed else c.size
            pool.append(v * E.R.B - E.R.W(n))
    ga = g.store
    pool = [p for p in pool if p.is_const() or not ga.prove(p)]
    facts = {v: list(pool) for v in vecs}

    def cut(s, bc, why):
        env = env_of(L, bc)
        try:
            ps = [subst(a, env, E.R) for a in at]
        except ValueError:
            facts.clear()
            return True
        ch = False
        for s2, v in signs(E, s.copy(), ps):
            if v not in facts:
                continue
            keep = []
            for p in facts[v]:
                try:
                    q = subst(p, env, E.R)
                    ok = s2.store.prove(q)
                except ValueError:
                    ok = False
                if ok:
                    keep.append(p)
            if len(keep) != len(facts[v]):
                ch = True
                facts[v] = keep
        return ch
    cut(entry, L.entry, 'entry')
    work = list(vecs)
    for it in range(60):
        ch = False
        for v in vecs:
            if v not in facts or any(p.is_const() for p in facts[v]):
                continue
            gg = generic(E, L, entry)
            for a, t in zip(at, v):
                gg.store.add_ge(a if t else -a - 1)
            for p in facts[v]:
                gg.store.add_ge(p)
            if gg.store.dead:
                continue
            for i in run_body(E, F, h, gg, frame):
                if i[0] == 'back':
                    if cut(i[1], comps(E, i[1], F, h), v):
                        ch = True
        if not ch:
            break
    else:
        return None
    res = []
    for v in vecs:
        if v not in facts or any(p.is_const() for p in facts[v]):
            continue
        res.append([(a if t else -a - 1) for a, t in zip(at, v)] + facts[v])
    if E.trace:
        print('split', len(at), 'atoms', len(vecs), 'classes', len(res), 'reachable')
    return res or None


def split_first(E, L, F, h, frame, entry, bk):
    """the first arrival at the header apart from the later ones: facts that
    hold on every later arrival although not on the first"""
    def at_entry():
        g = generic(E, L, entry)
        for c, s in L.syms.items():
            v = L.entry.get(c)
            if c in L.changed and isinstance(v, Poly) and c[-1] not in ('c', 'base', 'tag'):
                g.store.add_eq(Poly.sym(s) - v)
        return g
    pool = candidates(E, L, F, h, entry, bk)
    ga = generic(E, L, entry).store
    pool = [p for p in pool if not ga.prove(p)]

    def cut(items):
        keep = pool
        for i in items:
            if i[0] != 'back':
                continue
            env = env_of(L, comps(E, i[1], F, h))
            nk = []
            for p in keep:
                try:
                    q = subst(p, env, E.R)
                except ValueError:
                    continue
                if i[1].store.prove(q) or prove_by_neg(i[1].store, q):
                    nk.append(p)
            keep = nk
        return keep
    pool = cut(run_body(E, F, h, at_entry(), frame))
    for it in range(12):
        g = generic(E, L, entry)
        for p in pool:
            g.store.add_ge(p)
        n = len(pool)
        pool = cut(run_body(E, F, h, g, frame))
        if E.trace:
            print('split_first', it, n, '->', len(pool))
        if len(pool) == n:
            break
    else:
        return None
    if not pool:
        return None
    first = []
    for c, s in L.syms.items():
        v = L.entry.get(c)
        if c in L.changed and isinstance(v, Poly) and c[-1] not in ('c', 'base', 'tag'):
            first += [Poly.sym(s) - v, v - Poly.sym(s)]
    return [first, pool]


def prove_by_neg(S, p):
    t = S.copy()
    t.add_ge(-p - 1)
    return t.dead or t.infeasible([p])


def implied(E, L, entry, eqs, p):
    t = S_.new_state(E.R).store
    for e in eqs:
        t.add_eq(e)
    return t.canon(p) == ZERO


def slots_of(*a):
    pass


slot_values = facts_from = slots_of
