"""The arithmetic and relational properties: kernel contracts first, then every
public operation on operands of any length, then, only for what could not be
proved, a search for an exact abstract state that contradicts the property."""
from kproof import *
import driver, fourier, witness
import sym as S_
from driver import pmap

P = None
ENGERR = (Budget, Unsupported, ValueError, KeyError, RecursionError, AttributeError, TypeError, IndexError, AssertionError, ZeroDivisionError)
FIN = (POS, NEG)


# ------------------------------------------------------------------ stage 1
def doublers(sy):
    """helpers of the division that work on one list of digits in place"""
    D = sy.kernel('abs_val_div')
    out = []
    if D is None:
        return out
    for b in D.blocks:
        for x in b:
            if x['op'] in ('call', 'invoke') and x['callee'][0] == 'g':
                G = P.fns.get(x['callee'][1])
                if G is None or G.decl or not P.in_repo(G) or G.q.base in K_.CMP or G.q.base in ('abs_val_add', 'abs_val_sub'):
                    continue
                ps = split_top(G.q.params)
                cs = [i for i, p in enumerate(ps) if p.startswith('std::vector<')]
                if len(ps) == 1 and cs == [0] and 'const' not in ps[0][-8:] and G not in out and len(x['ops']) in (1, 2):
                    out.append(G)
    return out


def kernel_task(sysname, group, have):
    """prove one kernel; (label, contract names, goals, stats)"""
    sy = Sys(P, sysname)
    con = contracts_for(set(have))
    b = 250000
    if group in K_.CMP:
        kps = [prove_cmp(sy, group, con, b)]
    elif group == 'add':
        kps = [prove_add(sy, con, True, False, b)]
    elif group == 'add@alias':
        kps = [prove_add(sy, con, True, True, b)]
    elif group == 'add@any':
        kps = [prove_add(sy, con, False, False, b)]
    elif group == 'sub':
        kps = [prove_sub(sy, con, False, b)]
    elif group == 'sub@alias':
        kps = [prove_sub(sy, con, True, b)]
    elif group == 'mul_naive':
        kps = [prove_mul(sy, group, con, False, b)]
    elif group == 'mul_naive@alias':
        kps = [prove_mul(sy, 'mul_naive', con, True, b)]
    elif group == 'pack':
        kps = [fourier.prove_pack(sy, dict(con, **fourier.length_contracts(P)), b)]
    elif group == 'forms':
        kps = [fourier.prove_forms(sysname)]
    elif group.startswith('mul_strassen'):
        kps = [prove_mul(sy, 'mul_strassen', fourier.strassen_contracts(con), group.endswith('@alias'), b, hooks={'fp_to_int': fourier.conv_int})]
    elif group == 'double':
        kps = [prove_double(sy, G, con, b) for G in doublers(sy)]
    elif group == 'div':
        kps = [prove_div(sy, con, 600000, ('first', False))]
    out = []
    for kp in kps:
        obs = [(o.kind, o.site, o.text, o.fn, o.ok, o.n) for o in kp.obs.values()]
        out.append((kp.name, kp.goals, kp.err, kp.time, kp.states, obs, sorted(kp.fns)))
    return sysname, group, out


NEEDS = {
    'sum': list(K_.CMP) + ['add', 'add@alias', 'sub', 'sub@alias'],
    'cmp': list(K_.CMP),
    'mul': ['mul_naive', 'mul_naive@alias', 'pack', 'forms'],
    'div': ['add@any', 'double'],
}


def prove_kernels(rep, what, systems=None, deadline=None, probe=None):
    """system -> set of proved contract names; probe(): looks for a violation as
    soon as a contract is not proved, true when there is one"""
    systems = systems or list(SYSTEMS)
    groups = []
    for w in what:
        if w == 'div':
            groups += [g for g in NEEDS['sum'] + NEEDS['div'] if g not in groups]
        else:
            groups += [g for g in NEEDS[w] if g not in groups]
    # the long ones first
    order = {'mul_naive': 0, 'add': 1, 'add@any': 1, 'double': 2}
    tasks = [(s, g, ()) for g in sorted(groups, key=lambda g: order.get(g, 5)) for s in systems]
    proved = {s: set() for s in systems}
    kinfo = {s: {} for s in systems}
    lost = set()

    def take(results, tasks):
        for t, r in zip(tasks, results):
            s, g = t[0], t[1]
            if r is None:
                rep.ob('%s: contract of %s' % (s, g), False, 'no answer')
                lost.add(g)
                continue
            if r[0] == 'ANCHOR':
                rep.ob('%s: contract of %s' % (s, g), False, 'absent')
                lost.add(g)
                continue
            for name, goals, err, tm, states, obs, fns in r[2]:
                kinfo[s][name] = (goals, obs)
                rep.cov.setdefault('functions', set()).update(fns)
                rep.count('abstract_states', states)
                if err or not goals:
                    rep.ob('%s: contract of %s' % (s, name), False, err or 'no outcome')
                    continue
                for gname, ok in goals.items():
                    rep.ob('%s: %s: %s (any length)' % (s, name, gname), ok)
                okobs = True
                for kind, site, text, fn, ok, n in obs:
                    okobs &= rep.ob('%s: %s: %s at %s:%d' % (s, name, text, site[0].replace(P.repo, ''), site[1]), ok)
                # a contract is only used when every goal was proved
                if all(goals.values()) and okobs:
                    proved[s].add(name)

    def suspects(ts):
        for s in systems:
            bad = [n for n in kinfo[s] if n not in proved[s] and n not in ('transforms', 'abs_val_add@any')]
            bad += [t[1] for t in ts if t[0] == s and t[1] in lost]
            if bad:
                rep.suspect[s] = bad
        return bool(rep.suspect and probe and probe())

    take(pmap(kernel_task, tasks, 150, deadline), tasks)
    if suspects(tasks):
        return proved, kinfo
    probe = None if rep.suspect else probe
    later = []
    if 'div' in what:
        t2 = [(s, 'div', tuple(sorted(proved[s] if 'abs_val_add@any' in proved[s] else proved[s] - {'abs_val_add'}))) for s in systems]
        later += t2
        take(pmap(kernel_task, t2, 60 if rep.suspect else 150, deadline), t2)
    for s in systems:
        if 'abs_val_add' in proved[s] and 'abs_val_add@any' not in proved[s]:
            proved[s].add('abs_val_add!canon')
        if 'mul_naive' in proved[s] and 'mul_naive@alias' not in proved[s]:
            proved[s].discard('mul_naive')
    if 'mul' in what:
        # the transform's contracts hold up to rounding (C26, C27)
        t3 = [(s, g, tuple(sorted(proved[s]))) for s in systems if {'create_fft_table', 'transforms'} <= proved[s] for g in ('mul_strassen', 'mul_strassen@alias')]
        later += t3
        take(pmap(kernel_task, t3, 150, deadline), t3)
        for s in systems:
            if 'mul_strassen' in proved[s] and 'mul_strassen@alias' not in proved[s]:
                proved[s].discard('mul_strassen')
    suspects(later)
    return proved, kinfo


# ------------------------------------------------------------------ stage 2
class Sc:
    """one scenario: operation, operand states, shapes"""
    __slots__ = ('sys', 'op', 'da', 'db', 'alias', 'sizes', 'pa', 'pb', 'canonical', 'pre', 'prod')

    def __init__(self, sys, op, da, db, alias=False, sizes=(None, None), pa=None, pb=None, canonical=True, pre=None, prod=None):
        self.prod = prod
        self.sys, self.op, self.da, self.db, self.alias, self.sizes, self.pa, self.pb, self.canonical, self.pre = sys, op, da, db, alias, sizes, pa, pb, canonical, pre

    def clone(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Sc(**d)

    def __getstate__(self):
        return {k: getattr(self, k) for k in self.__slots__}

    def __setstate__(self, d):
        for k, v in d.items():
            setattr(self, k, v)

    def text(self):
        a = '%s%s' % (DNAME[self.da], '' if self.sizes[0] is None else '/%s digits' % self.sizes[0])
        b = 'itself' if self.alias else '%s%s' % (DNAME[self.db], '' if self.sizes[1] is None else '/%s digits' % self.sizes[1])
        return '%s: %s %s %s' % (self.sys, a, self.op, b)


def execute(sc, con, peel=0, budget=400000, patt=(None, None), alarm=None):
    sy = Sys(P, sc.sys)
    sizes = list(sc.sizes)

    def pre(st, r):
        if sc.pre == 'nonneg0':
            if r.da == NEG:
                st.store.add_ge(r.VA - 1)
            if r.db == NEG:
                st.store.add_ge(r.VB - 1)
        if sc.pre == 'nz':
            st.store.add_ge(r.VB - 1)
        if peel and sc.op[0] == '/' and sc.sizes[1] != 0 and 'rank' not in S_.WATCH:
            st.store.add_ge(r.VB * 9 - r.VA)
    if sc.db in (NAN, PINF, NINF):
        sizes[1] = 0
    if sc.da in (NAN, PINF, NINF):
        sizes[0] = 0
    return sy, run_op(sy, sc.op, sc.da, sc.db, sc.alias, tuple(sizes), con, False, peel, sc.canonical, pre, budget, patt=patt, product=sc.prod)


def op_task(prop, scs, proved):
    """prove the goals of a property for scenarios with operands of any length"""
    out = []
    con = contracts_for(set(proved))
    for i, sc in enumerate(scs):
        res, err = [], None
        t = time.time()
        fns = ()
        try:
            sy, r = execute(sc, con)
            live = 0
            for s, k, v in r.states:
                if s.store.dead or s.store.infeasible(()):
                    continue
                live += 1
                for g in GOALS[prop](sy, sc, r, s, k, v):
                    res.append((g.text, bool(g.proved(s))))
            fns = sorted(r.E.fns_seen)
            obs = [(o.kind, o.site, o.text, o.fn, o.ok, o.n) for o in r.E.obs.values()]
            if not live and not r.states:
                err = 'no outcome'
        except ENGERR as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            err, obs = repr(e), []
        out.append((i, res, err, time.time() - t, fns, obs))
    return out


# ------------------------------------------------------------------ goals
def expected(sc, r):
    a, b = r.VA * sgn(sc.da), r.VB * sgn(r.db)
    o = sc.op[0]
    return {'+': a + b, '-': a - b, '*': a * b}[o]


def small_digits(sy, s, c):
    """every stored digit is smaller than the radix, where they are listed"""
    ds = vec.known(s, c)
    return [Goal('every stored digit is smaller than the radix', ge=[C(sy.M) - d for d in ds])] if ds else []


def g_exact(sy, sc, r, s, k, v):
    if k != 'ret':
        return [Goal('the operation returns', truth=False)]
    dd, c = result(r, s)
    if dd is None or c is None or c.V is None:
        return [Goal('the result has a state and digits', truth=None, unknown=True)]
    if dd not in FIN:
        return [Goal('the result is finite', truth=False)]
    return small_digits(sy, s, c) + [Goal('the result is the exact value', eq=[c.V * sgn(dd) - expected(sc, r)])]


def g_quot(sy, sc, r, s, k, v):
    if k != 'ret':
        return [Goal('the operation returns', truth=False)]
    dd, c = result(r, s)
    if dd is None or c is None or c.V is None:
        return [Goal('the result has a state and digits', unknown=True)]
    if dd not in FIN:
        return [Goal('the result is finite', truth=False)]
    rem = r.VA - r.VB * c.V
    out = small_digits(sy, s, c) + [Goal('the quotient is not too large', ge=[rem]), Goal('the quotient is not too small', ge=[r.VB - 1 - rem])]
    neg = (sc.da == NEG) != (r.db == NEG)
    if dd == NEG and not neg:
        out.append(Goal('a quotient of equal signs is not negative', eq=[c.V]) if False else Goal('a quotient of equal signs is not negative', truth=False))
    if dd == NEG and neg:
        out.append(Goal('a negative quotient is not zero', ge=[c.V - 1]))
    if dd == POS and neg:
        out.append(Goal('a quotient of different signs is negative unless zero', eq=[c.V]))
    return out


def g_canon(sy, sc, r, s, k, v):
    if k != 'ret':
        return [Goal('the operation returns', truth=False)]
    dd, c = result(r, s)
    if dd is None or c is None or c.V is None:
        return [Goal('the result has a state and digits', unknown=True)]
    if dd not in FIN:
        return []
    out = [Goal('no leading zero digit', canon=c)] + small_digits(sy, s, c)
    if dd == NEG:
        out.append(Goal('a negative result is not zero', ge=[c.V - 1]))
    return out


def g_divzero(sy, sc, r, s, k, v):
    if k != 'ret':
        return [Goal('the operation returns', truth=False)]
    dd, c = result(r, s)
    if dd is None or c is None:
        return [Goal('the result has a state and digits', unknown=True)]
    want = NINF if (sc.da == NEG) != (r.db == NEG) else PINF
    return [Goal('the result is %s' % DNAME[want], truth=dd == want), Goal('the infinity has no digits', eq=[c.size])]


def g_nonfinite(sy, sc, r, s, k, v):
    if k != 'ret':
        return [Goal('the operation returns', truth=False)]
    dd, c = result(r, s)
    if dd is None or c is None:
        return [Goal('the result has a state and digits', unknown=True)]
    da, db, o = sc.da, r.db, sc.op[0]
    if da == NAN or db == NAN:
        return [Goal('NaN stays NaN', truth=dd == NAN), Goal('NaN has no digits', eq=[c.size])]
    if o == '/' and da in FIN:
        return [Goal('finite divided by an infinity is finite', truth=dd in FIN)] + ([Goal('finite divided by an infinity is zero', eq=[c.V])] if c.V is not None else [])
    return [Goal('the result is not finite', truth=dd not in FIN), Goal('a non-finite result has no digits', eq=[c.size])]


def g_same(sy, sc, r, s, k, k0):
    """the result equals what the compound operator stores for copies"""
    if (k == 'ret') != (k0 == 'ret') or k != 'ret':
        return [Goal('both ways of computing return', truth=(k == 'ret') == (k0 == 'ret'))]
    text = 'the result is what %s stores for separate copies' % sc.prod
    d1, c1 = result(r, s)
    o = ('arg', 'A2')
    d2, c2 = desc_index(sy, s, s.mem.get((o, sy.od))), s.conts.get((o, sy.oc))
    if d1 is None or d2 is None or c1 is None or c2 is None or c1.V is None or c2.V is None:
        return [Goal(text, unknown=True)]
    # zero has one sign only in results that are canonical; states must agree
    if d1 != d2:
        saturate(s)
        dead = s.store.dead or prove_by_cases(s.store, C(-1), [c1.V, c2.V, sy.R.W(c1.size), sy.R.W(c2.size)])
        return [Goal(text, truth=dead)]
    if d1 not in FIN:
        return [Goal(text, eq=[c1.size - c2.size])]
    return [Goal(text, eq=[c1.V - c2.V])]


def g_self(sy, sc, r, s, k, v):
    if sc.prod:
        return g_same(sy, sc, r, s, k, v[0])
    return (g_quot if sc.op[0] == '/' else g_exact)(sy, sc, r, s, k, v)


def g_keeps(sy, sc, r, s, k, v):
    """operands unchanged, compound operators return the left operand"""
    out = []
    if sc.prod:
        out += g_same(sy, sc, r, s, k, v[0])
        if v[0] != 'ret':
            return out
        v = v[1]
    elif k != 'ret':
        return out
    objs = []
    if sc.op in RELS or sc.op in '+-*/':
        objs.append(('A', sc.da, r.cA))
    if not sc.alias:
        objs.append(('B', sc.db, r.cB))
    for n, d, c0 in objs:
        o = ('arg', n)
        m = s.mem.get((o, sy.od))
        dv = s.store.canon(m[0]) if m is not None and isinstance(m[0], Poly) else None
        which = 'left' if n == 'A' else 'right'
        if dv is None:
            out.append(Goal('the %s operand keeps its state' % which, unknown=True))
        else:
            out.append(Goal('the %s operand keeps its state' % which, eq=[dv - sy.desc[d]]))
        c = s.conts.get((o, sy.oc))
        if c is None or c.V is None:
            out.append(Goal('the %s operand keeps its digits' % which, unknown=True))
        elif c != c0:
            out.append(Goal('the %s operand keeps its digits' % which, eq=[c.V - c0.V, c.size - c0.size]))
        else:
            out.append(Goal('the %s operand keeps its digits' % which, truth=True))
    if sc.op in ('+=', '-=', '*=', '/='):
        ok = isinstance(v, Ptr)
        out.append(Goal('a reference to the left operand is returned', truth=v == r.res) if ok else Goal('a reference to the left operand is returned', unknown=True))
    return out


def rel_holds(op, sign):
    return {'==': sign == 0, '!=': sign != 0, '<': sign < 0, '<=': sign <= 0, '>': sign > 0, '>=': sign >= 0}[op]


def g_rel(sy, sc, r, s, k, v):
    if k != 'ret':
        return [Goal('the comparison returns', truth=False)]
    if not isinstance(v, Poly):
        return [Goal('the comparison has a value', unknown=True)]
    v = s.store.canon(v)
    if not v.is_const():
        return [Goal('the comparison has a decided value', unknown=True)]
    t = bool(v.cval() & 1)
    da, db, op = sc.da, r.db, sc.op
    if da == NAN or db == NAN:
        if op in ('==', '!='):
            if da != db:
                return [Goal('NaN differs from every number', truth=t == (op == '!='))]
            return []
        return [Goal('orderings with NaN are false', truth=not t)]
    if da not in FIN or db not in FIN:
        o = {PINF: 1, NINF: -1}
        want = rel_holds(op, o.get(da, 0) - o.get(db, 0))
        return [Goal('an infinity is ordered beyond every finite number', truth=t == want)]
    d = r.VA * sgn(da) - r.VB * sgn(db)
    if op in ('==', '!='):
        if t == (op == '=='):
            return [Goal('equal means the same value', eq=[d])]
        return [Goal('different means different values', ne=[d])]
    p = {'>': d - 1, '>=': d, '<': -d - 1, '<=': -d}[op]
    return [Goal('%s is answered %s' % (op, 'true only when it holds' if t else 'false only when it does not hold'), ge=[p if t else -p - 1])]


GOALS = {'C01': g_exact, 'C02': g_exact, 'C04': g_exact, 'C03': g_quot, 'C06': g_canon, 'C07': g_divzero, 'C08': g_nonfinite,
         'C09': g_keeps, 'C05': g_rel}


GOALS['C10'] = g_self


def scenarios(prop, s):
    """every scenario of a property in one digit system"""
    out = []

    def add(ops, das, dbs, **kw):
        for op in ops:
            for da in das:
                for db in dbs:
                    out.append(Sc(s, op, da, db, **kw))
    if prop == 'C01':
        add(('+=', '+'), FIN, FIN)
    elif prop == 'C02':
        add(('-=', '-'), FIN, FIN)
    elif prop == 'C04':
        add(('*=', '*'), FIN, FIN)
    elif prop == 'C03':
        add(('/=', '/'), FIN, FIN, pre='nz')
    elif prop == 'C05':
        allD = (POS, NEG, NAN, PINF, NINF)
        add(RELS, allD, allD, pre='nonneg0')
        for op in RELS:
            for d in allD:
                out.append(Sc(s, op, d, d, alias=True, pre='nonneg0'))
    elif prop == 'C06':
        add(('+=', '-=', '*=', '+', '-', '*'), FIN, FIN, pre='nonneg0')
        add(('/=', '/'), FIN, FIN, pre='nonneg0')
        for op in ('+=', '-=', '*=', '/='):
            for d in FIN:
                out.append(Sc(s, op, d, d, alias=True, pre='nonneg0'))
    elif prop == 'C07':
        add(('/=', '/'), FIN, FIN, sizes=(None, 0))
        add(('/=', '/'), FIN, FIN, sizes=(None, 'zero'))
        add(('/=', '/'), FIN, FIN, sizes=('zero', 'zero'))
    elif prop == 'C08':
        allD = (POS, NEG, NAN, PINF, NINF)
        for op in ('+', '-', '*', '/', '+=', '-=', '*=', '/='):
            for da in allD:
                for db in allD:
                    if da not in FIN or db not in FIN:
                        out.append(Sc(s, op, da, db))
        for op in ('+=', '-=', '*=', '/='):
            for d in (NAN, PINF, NINF):
                out.append(Sc(s, op, d, d, alias=True))
    elif prop == 'C09':
        allD = (POS, NEG, NAN, PINF, NINF)
        comp = lambda op: op + '=' if op in ('+', '-', '*', '/') else None
        for op in list(OPS) + list(RELS):
            for d in allD:
                for e in allD:
                    out.append(Sc(s, op, d, e, prod=comp(op)))
                out.append(Sc(s, op, d, d, alias=True, prod=comp(op)))
    elif prop == 'C10':
        for op in ('+=', '-=', '*=', '/='):
            for d in FIN:
                out.append(Sc(s, op, d, d, alias=True, pre='nz' if op == '/=' else None, prod='*=' if op == '*=' else None))
    return out


# ------------------------------------------------------------------ stage 3
def loc_of(fname, b):
    F = P.fns.get(fname)
    if F is None:
        return fname
    if isinstance(b, tuple):
        for blk in F.blocks:
            for x in blk:
                if x.get('id') == b[1] and x.get('loc'):
                    return '%s:%d' % (x['loc'][0].replace(P.repo, ''), x['loc'][1])
        return F.q.base
    blk = F.blocks[b]
    for x in reversed(blk):
        if x.get('loc'):
            return '%s:%d' % (x['loc'][0].replace(P.repo, ''), x['loc'][1])
    return F.q.base


def path_text(path, limit=24):
    out = []
    for p in path:
        if p and p[0] == 'exception':
            out.append('exception of type %s' % p[1])
            continue
        if p and p[0] in ('loop', 'contract'):
            out.append('%s %s' % (p[0], p[1] if p[0] == 'contract' else qname(P.fns[p[1]].dem).base))
            continue
        fn = P.fns.get(p[0])
        if fn is not None and not P.in_repo(fn):
            continue
        out.append('%s in %s: %s' % (loc_of(p[0], p[1]), fn.q.base if fn else p[0], {True: 'taken', False: 'not taken'}.get(p[2], p[2])))
    if len(out) > limit:
        out = out[:4] + ['... %d more branches' % (len(out) - limit)] + out[-(limit - 4):]
    return out


def digits_text(st, c, val, R):
    ds = vec.known(st, c)
    if ds is None:
        return '?'
    r = []
    for d in reversed(ds):
        v = witness.evaluate(st.store, d, val)
        r.append('?' if v is None else str(v))
    return '[' + ' '.join(r) + ']'


def refute_task(prop, sc, patts, budget=300000):
    """an exact abstract state in which a goal fails, or None"""
    t0 = time.time()
    stats = [0, 0]
    for patt in patts:
        try:
            sy, r = execute(sc, {}, peel=max([70] + [x + 10 for x in sc.sizes if isinstance(x, int)]), budget=budget * (4 if max([x for x in sc.sizes if isinstance(x, int)] + [0]) > 70 else 1), patt=patt)
        except Anchor:
            raise
        except ENGERR as e:
            if os.environ.get('VERIF_DEBUG'):
                print(sc.text(), repr(e), file=sys.stderr)
            continue
        for s, k, v in r.states:
            if s.inx or s.store.dead:
                continue
            stats[0] += 1
            for g in GOALS[prop](sy, sc, r, s, k, v):
                if g.proved(s):
                    stats[1] += 1
                    continue
                for neg in g.negations(s):
                    val = witness.find(s.store, neg)
                    if val is None:
                        continue
                    F = r.F
                    dd, c = result(r, s)
                    lines = ['operation %s (%s:%d), digit system %s (%s)' % (F.q.base, F.file.replace(P.repo, ''), F.line, sc.sys, sy.elem),
                             'rule: %s' % g.text,
                             'left  %s %s' % (DNAME[sc.da], digits_text(s, r.cA, val, sy.R)),
                             'right %s %s' % (DNAME[r.db], 'the same object' if sc.alias else digits_text(s, r.cB, val, sy.R))]
                    if k == 'ret' and sc.op not in RELS:
                        lines.append('result %s %s' % (DNAME[dd] if dd is not None else '?', digits_text(s, c, val, sy.R) if c is not None else '?'))
                    elif k == 'ret' and isinstance(v, Poly):
                        lines.append('answer %s' % s.store.canon(v))
                    else:
                        lines.append('outcome %s %s' % (k, v))
                    lines += ['path: ' + x for x in path_text(s.path)]
                    last = [x for x in path_text(s.path) if not x.startswith(('loop', 'contract', '...'))]
                    return ('bad', '%s:%d: %s: %s (%s)' % (F.file.replace(P.repo, ''), F.line, F.q.base, g.text, sc.text()), '\n'.join(lines), stats)
    return ('none', None, None, stats)


def constants(maxv=4200):
    """small constants the library compares with or adds: interesting lengths"""
    out = set()
    for F in P.fns.values():
        if F.decl or not P.in_repo(F):
            continue
        for b in F.blocks:
            for x in b:
                if x['op'] in ('icmp', 'sub', 'add', 'udiv', 'urem', 'lshr', 'and', 'switch'):
                    for o in x['ops'][:2] if x['op'] != 'switch' else ():
                        if o[0] == 'i' and 3 <= int(o[1]) <= maxv:
                            out.add(int(o[1]))
    return sorted(out)


def shapes(sc, consts):
    """(na, nb, pattern) in the order in which they are tried"""
    big = sc.op[0] in '*/'
    m = 3 if big else 4
    pairs = []
    fix = lambda x, r: [x] if x is not None else r
    for na in fix(sc.sizes[0], list(range(6 if sc.op[0] == '/' else m + 1))):
        for nb in fix(sc.sizes[1], list(range(m + 1))):
            pairs.append((na, nb))
    num = lambda x: 1 if x == 'zero' else x
    pairs.sort(key=lambda p: (num(p[0]) + num(p[1]), p))
    out = [(p, (None, None)) for p in pairs]
    lens = []
    for c in consts:
        for d in (c - 1, c, c + 1):
            if d > m and d not in lens and c <= 70:
                lens.append(d)
    if sc.sizes[0] is None and sc.sizes[1] is None:
        for n in lens[:18]:
            for pa in ('max', 'zero'):
                for nb, pb in ((1, None), (n, pa), (n, 'max' if pa == 'zero' else 'zero'), (2, None)):
                    out.append(((n, nb), (pa, pb)))
                    if nb != n:
                        out.append(((nb, n), (pb, pa)))
        # a large constant may be a length or a position from which on the code differs
        for c in [c for c in consts if c > 70][:12]:
            if sc.op[0] == '/':
                z = ('zero@%d' % c, 'zero@%d' % c)
                out += [((c + 2, c + 1), z), ((c + 1, c), z), ((c + 2, c + 2), z), ((c + 2, 1), z)]
                continue
            if sc.op[0] == '*':
                for n in (c + 2, c):
                    out += [((1, n), (None, 'max')), ((n, 1), ('max', None)), ((2, n), ('max', 'zero@%d' % c)), ((n, 2), ('zero@%d' % c, 'max'))]
                continue
            for n in (c + 2, c):
                for pa, pb in (('max', 'zero'), ('zero', 'max'), ('max', 'max')):
                    if (pa, pb) != ('zero', 'max'):
                        out.append(((n, 1), (pa, None)))
                    out.append(((n, n), ('%s@%d' % (pa, c), '%s@%d' % (pb, c))))
    if sc.alias:
        seen, o2 = set(), []
        for (na, nb), (pa, pb) in out:
            if (na, pa) not in seen:
                seen.add((na, pa))
                o2.append(((na, na), (pa, pa)))
        out = o2
    return out


def decide(rep, prop, proved, deadline, scs=None, bounded=False):
    """stage 2 and 3 for one property"""
    systems = list(SYSTEMS)
    byres = {}
    tasks = []
    for s in systems:
        if scs is not None:
            l = scs(s)
        else:
            l = scenarios(prop, s)
        byop = {}
        for sc in l:
            byop.setdefault((sc.op, len(byop.get(sc.op, ())) // 40 if sc.op[0] != '*' else sc.text()), []).append(sc)
        for op, ll in byop.items():
            tasks.append((prop, ll, tuple(sorted(proved.get(s, ())))))
    res = pmap(op_task, tasks, 60, deadline - 200 if rep.suspect else deadline)
    failing = []
    for t, r in zip(tasks, res):
        if r is None or r[0] == 'ANCHOR':
            if r is not None:
                raise Anchor(r[1])
            for sc in t[1]:
                rep.ob(sc.text(), False, 'no answer')
                failing.append(sc)
            continue
        for i, gs, err, tm, fns, obs in r:
            sc = t[1][i]
            rep.count('scenarios')
            rep.cov.setdefault('functions', set()).update(fns)
            bad = [g for g, ok in gs if not ok]
            for g, ok in gs:
                rep.ob('%s: %s' % (sc.text(), g), ok)
            for kind, site, text, fn, ok, n in obs:
                if not rep.ob('%s: %s at %s:%d' % (sc.text(), text, site[0].replace(P.repo, ''), site[1]), ok):
                    bad.append(text)
            if err:
                rep.ob(sc.text(), False, err)
            if bad or err:
                failing.append(sc)
    rep.cov['scenarios_not_proved'] = len(failing)
    if failing:
        refute(rep, prop, failing, deadline)
    return failing


def narrow(F):
    """[(instruction, bits)]: positions in a list of digits counted in 8 or 16
    bits, started at a length cut to that width or stepped, and never compared with a constant"""
    defs, users = {}, {}
    for b in F.blocks:
        for x in b:
            if 'id' in x:
                defs[x['id']] = x
            for o in x.get('ops', []) + [v for _, v in x.get('inc', [])]:
                if o[0] == 'v':
                    users.setdefault(o[1], []).append(x)
    out = []
    for b in F.blocks:
        for x in b:
            if x['op'] not in ('call', 'invoke') or x['callee'][0] != 'g' or len(x['ops']) != 2 or x['ops'][1][0] != 'v':
                continue
            G = P.fns.get(x['callee'][1])
            if G is None or not G.dem.startswith('std::vector<') or G.q.base.split('::')[-1] not in ('operator[]', 'at'):
                continue
            z = defs.get(x['ops'][1][1])
            if z is None or z['op'] not in ('zext', 'sext') or z.get('from') not in ('i8', 'i16'):
                continue
            ty = z['from']
            seen, todo, cut, step, known = set(), [z['ops'][0]], False, False, True
            while todo and known:
                o = todo.pop()
                if o[0] == 'i':
                    continue
                y = defs.get(o[1]) if o[0] == 'v' else None
                if y is None:
                    known = False
                elif y['id'] in seen:
                    step = True
                else:
                    seen.add(y['id'])
                    if y['op'] == 'phi':
                        todo += [v for _, v in y['inc']]
                    elif y['op'] in ('add', 'sub', 'zext', 'sext'):
                        todo += y['ops'][:2]
                    elif y['op'] == 'trunc':
                        if y.get('from') == 'i64':
                            c = defs.get(y['ops'][0][1]) if y['ops'][0][0] == 'v' else None
                            H = P.fns.get(c['callee'][1]) if c is not None and c['op'] == 'call' and c['callee'][0] == 'g' else None
                            cut = known = H is not None and H.q.base.split('::')[-1] == 'size'
                        else:
                            todo += y['ops'][:1]
                    else:
                        known = False
            if not known or not (cut or step):
                continue
            bounded = False
            for i in seen | {z['id']}:
                for u in users.get(i, ()):
                    if u['op'] == 'icmp' and any(o[0] == 'i' and int(o[1]) != 0 for o in u['ops'][:2]) or u['op'] in ('switch', 'and', 'urem'):
                        bounded = True
            if not bounded:
                out.append((x, int(ty[1:])))
    return out


def narrow_counters(rep, prop, bad, key):
    """positions counted in too few bits, in a function that does not meet its contract"""
    names = {n.split('@')[0] for n in bad}
    for F in P.fns.values():
        if F.decl or not P.in_repo(F) or not any(F.q.base == n or ('abs_val_' + n) == F.q.base for n in names):
            continue
        for x, bits in narrow(F):
            f, l = tuple(x.get('loc') or (F.file, F.line))[:2]
            rep.rules.append('positions are counted in as many bits as lengths have')
            rep.violation(key, '%s:%d: %s: digits are addressed by a counter of %d bits: of a number of %d digits, digit %d is read or written in place of digit %d'
                          % (f.replace(P.repo, ''), l, F.q.base, bits, (1 << bits) + 1, 0, 1 << bits),
                          'function %s\ninstruction %s\nits contract is not met for all lengths' % (F.dem, x['id']))
            return True
    return False


def early(rep, prop, scs, deadline, task, extra, key):
    """a function of the library does not meet its contract: short operands
    first, before everything that calls it is analysed with its code in place"""
    if rep.viol:
        return True
    systems = [s for s in ('base10', 'base2', 'highp') if s in rep.suspect] or sorted(rep.suspect)
    if not systems:
        return False
    bad = {n for s in systems for n in rep.suspect[s]}
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05') and narrow_counters(rep, prop, bad, prop + ':counter'):
        return True
    only = None     # the operators that use what is in doubt
    if all('div' in n or 'double' in n or '{lambda' in n or 'operator()' in n for n in bad):
        only, systems = '/', [s for s in ('base2', 'base10', 'lowp') if s in rep.suspect] or systems
    elif all('mul' in n or 'fft' in n or n in ('pack', 'forms', 'transforms') for n in bad):
        only, systems = '*', [s for s in ('highp', 'base10') if s in rep.suspect] or systems
    consts = [c for c in constants() if c <= 12 or c > 70]
    tasks = []
    for i, s in enumerate(systems[:2]):
        for sc in scs:
            if sc.sys == s and sc.da in FIN and sc.db in FIN and (only is None or sc.op[0] == only):
                late = (0 if sc.op.endswith('=') else 4) + (8 if sc.da != POS else 0)
                big = 0
                for rank, (sz, patt) in enumerate(shapes(sc, consts)):
                    if max([x for x in sz if isinstance(x, int)] + [0]) > 70:
                        if late or i:
                            continue
                        big += 1
                        rank = 12 + big
                    tasks.append((rank + 12 * i + late, (prop, sc.clone(sizes=sz), (patt,)) + extra))
    tasks.sort(key=lambda t: t[0])
    tasks = [t[1] for t in tasks]
    for t, r in zip(tasks, pmap(task, tasks, 60, min(deadline, time.time() + 150), stop=lambda r: r[0] == 'bad')):
        if r is None:
            continue
        if r[0] == 'ANCHOR':
            raise Anchor(r[1])
        rep.count('early_shapes_examined')
        if r[0] == 'bad':
            rep.violation(key(t, r), r[1], r[2])
    return bool(rep.viol)


def refute(rep, prop, failing, deadline):
    consts = constants()
    tasks = []
    for sc in failing:
        for rank, (sz, patt) in enumerate(shapes(sc, consts)):
            tasks.append((rank, (prop, sc.clone(sizes=sz), (patt,))))
    tasks.sort(key=lambda t: t[0])
    tasks = [t[1] for t in tasks]
    res = pmap(refute_task, tasks, 100, deadline, stop=lambda r: r[0] == 'bad')
    n = ex = 0
    for t, r in zip(tasks, res):
        if r is None:
            continue
        n += 1
        if r[0] == 'ANCHOR':
            raise Anchor(r[1])
        ex += r[3][0]
        if r[0] == 'bad':
            rep.violation('%s:%s' % (prop, t[1].op), r[1], r[2])
    rep.cov['bounded_shapes_examined'] = n
    rep.cov['bounded_shapes_selected'] = len(tasks)
    rep.cov['exact_states_examined'] = ex
