"""Obligations every operation has to meet whatever it computes: accesses stay
inside the containers, no undefined arithmetic, every loop ends."""
from ops import *
from fscen import FS
import arith, driver, fourier, fscen, loops, misc, witness
import sym as S_

OBL = {'C12': ('bounds',), 'C24': ('div0', 'shift', 'overflow', 'fptoint'), 'C25': ('rank',)}


def watch(prop):
    if prop == 'C24':
        S_.WATCH.add('overflow')
    if prop == 'C25':
        S_.WATCH.add('rank')
        S_.LOOPHOOKS[:] = [loops.ranked]


# ------------------------------------------------------------ the transforms
def shrinks(E, st, x, G, args):
    """contract of the recursive call: a shorter list, same length afterwards"""
    k, c = fourier.get(None, st, args[0]) if len(args) == 1 else (None, None)
    if c is None or c.kind != 'cx' or E.fnstack[-1] is not G:
        return None
    own = st.conts.get((('arg', 'X'), 0))
    ok = own is not None and k[0] != ('arg', 'X') and st.store.prove(own.size - c.size - 1)
    E.oblig('rank', st, bool(ok), x, 'the recursion makes progress')
    return fourier.same_size(E, st, x, G, args)


def cx_any(st, shape, pow2=False):
    k = (('arg', 'X'), 0)
    if shape is None:
        n = Poly.sym(fresh('n', 'i', 0, 1 << 58))
        st.conts[k] = fourier.mk(st, 'X', 'cx', None, 16, n)
    else:
        fourier.cx_input(st, 'X', fourier.symbols(shape[0])[0])
    return [Ptr(*k)]


def transforms(P):
    out = []
    LEN = [(n,) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16)]
    for base, con in (('fft_complex', {'fft_complex': shrinks}), ('ifft_complex', {'fft_complex': fourier.same_size}), ('convolute_fft', {'fft_complex': fourier.same_size})):
        F = fourier.find(P, base)
        if F is None:
            raise Anchor('no instantiation of %s' % base)
        for G in {G.dem: G for G in P.fns.values() if not G.decl and P.in_repo(G) and G.q.base == base}.values():
            out.append(FS('base10', base, lambda sy, st, shape, ctx, G=G: (G, cx_any(st, shape)), None, LEN, con=lambda sy, con=con: con, key=base))
    for G in P.fns.values():
        if not G.decl and P.in_repo(G) and len(G.args) == 1 and not G.q.cls and fourier.type_bits(G.args[0]['ty']) == 64 and 'sret' not in G.args[0] and 'fourier' in G.file:
            def setup(sy, st, shape, ctx, G=G):
                return G, [Poly.sym(fresh('n', 'i', 0, (1 << 64) - 1)) if shape is None else C(shape[0])]
            out.append(FS('base10', G.q.base, setup, None, [(n,) for n in (0, 1, 2, 3, 4, 5, 31, 32, 33, 1 << 31, 1 << 32, (1 << 40) + 1, 1 << 62)], key=G.q.base))
    return out


# ------------------------------------------------------- published kernels
def kernels(s, status):
    """direct calls of the magnitude functions, on explicit lengths"""
    out = []
    SH = sorted(((i, j) for i in range(5) for j in range(5) if i + j <= 6), key=sum)
    for name in ('mul_naive', 'mul_strassen', 'create_fft_table', 'abs_val_add'):
        def setup(sy, st, shape, ctx, name=name):
            F = fourier.find(sy.P, name, sy.elem) if name == 'create_fft_table' else sy.kernel(name)
            if F is None:
                raise Anchor('no instantiation of %s' % name)
            na, nb = shape if shape is not None else (None, None)
            a, b = digits(sy, st, 'A', na), digits(sy, st, 'B', nb)
            ctx['show'] = [('a', st.conts[(a.obj, a.off)]), ('b', st.conts[(b.obj, b.off)])]
            return F, [Ptr(('arg', 'R'), 0), a, b]
        out.append(FS(s, '%s: %s' % (s, name), setup, None, SH, key=name))
    return out


def c_ops(s):
    """every operator on every kind of operand"""
    out = []
    allD = (POS, NEG, NAN, PINF, NINF)
    for op in list(arith.OPS) + list(arith.RELS):
        for d in allD:
            for e in allD:
                if d in arith.FIN or e in arith.FIN or op in arith.RELS:
                    out.append(arith.Sc(s, op, d, e))
            out.append(arith.Sc(s, op, d, d, alias=True))
    return out


def no_goals(sy, sc, r, s, k, v):
    return []


for p in OBL:
    arith.GOALS[p] = no_goals


def refute_op(prop, sc, patts, kinds, budget=300000):
    """an exact state in which an obligation fails while the operation runs"""
    stats = [0, 0]
    for patt in patts:
        try:
            sy, r = arith.execute(sc, {}, peel=max([70] + [x + 10 for x in sc.sizes if isinstance(x, int)]), budget=budget, patt=patt)
        except Anchor:
            raise
        except arith.ENGERR as e:
            if os.environ.get('VERIF_DEBUG'):
                print(sc.text(), repr(e), file=sys.stderr)
            continue
        stats[0] += len(r.states)
        w = bad_obligation(r.E, kinds)
        if w is None:
            continue
        o, s, val = w
        repo = arith.P.repo
        lines = ['operation %s (%s:%d), digit system %s (%s)' % (r.F.q.base, r.F.file.replace(repo, ''), r.F.line, sc.sys, sy.elem), 'rule: %s' % o.text,
                 'left  %s %s' % (DNAME[sc.da], arith.digits_text(s, r.cA, val, sy.R)),
                 'right %s %s' % (DNAME[r.db], 'the same object' if sc.alias else arith.digits_text(s, r.cB, val, sy.R))]
        lines += ['path: ' + x for x in arith.path_text(s.path)]
        return ('bad', '%s:%d: %s: violated: %s (%s)' % (o.site[0].replace(repo, ''), o.site[1], qname(o.fn).base if o.fn else r.F.q.base, o.text, sc.text()), '\n'.join(lines), stats, o.site)
    return ('none', None, None, stats)


def bad_obligation(E, kinds):
    for o in E.obs.values():
        if o.kind not in kinds or o.ok:
            continue
        for s, p in o.bad:
            if s.inx:
                continue
            val = witness.find(s.store, [] if isinstance(p, bool) else [-p - 1])
            if val is not None:
                return o, s, val
    return None


def run(prop, what, budget):
    def f(rep, P, tmp, here):
        rep.trusted = ['abstract domain: linear facts over digits, lengths, powers of the radix and numeric values (engine/lin.py), with its own exact LP (tools/lp.cpp)',
                       'model of std::vector, std::complex, iostream and exceptions (engine/vec.py)', 'clang 18 front end, LLVM 18 SROA/mem2reg']
        rep.rules.append({'C12': 'the index of every access to a container lies inside its current bounds', 'C24': 'operands of every division, shift, signed operation and conversion are in range',
                          'C25': 'every loop has a ranking function, every recursion a decreasing argument'}[prop])
        kinds = OBL[prop]
        watch(prop)
        dl = rep.t0 + budget.get(os.environ.get('VERIF_TIER', 'quick'), 600)
        sub = driver.Report(prop)
        key = lambda t, r: '%s:%s:%d' % (prop, os.path.basename(r[4][0]), r[4][1])

        def probe():
            rep.suspect = sub.suspect
            return arith.early(rep, prop, [sc for s in SYSTEMS for sc in c_ops(s)], dl, refute_op, (kinds,), key)
        proved, kinfo = arith.prove_kernels(sub, what, deadline=rep.t0 + 300, probe=probe)
        if rep.viol:
            rep.obl, rep.done, rep.open, rep.cov['functions'] = sub.obl, sub.done, sub.open, set(sub.cov.get('functions', ()))
            return
        rep.cov['functions'] = set(sub.cov.get('functions', ()))
        todo = set()
        for s in SYSTEMS:
            for name, (goals, obs) in kinfo[s].items():
                for kind, site, text, fn, ok, n in obs:
                    if kind in kinds:
                        rep.count('kernel_obligations')
                        if not rep.ob('%s: %s: %s at %s:%d' % (s, name, text, site[0].replace(P.repo, ''), site[1]), ok):
                            todo.add(s)
                if name not in proved[s] and name not in ('transforms', 'abs_val_add@any'):
                    todo.add(s)
        rep.cov['contracts_used'] = {s: sorted(v) for s, v in proved.items()}
        # operators
        tasks = []
        for s in SYSTEMS:
            byop = {}
            for sc in c_ops(s):
                byop.setdefault((sc.op, len(byop.get(sc.op, ())) // 40), []).append(sc)
            tasks += [(prop, l, tuple(sorted(proved[s]))) for l in byop.values()]
        rep.suspect = sub.suspect
        failing = []
        for t, r in zip(tasks, driver.pmap(arith.op_task, tasks, 60, dl - 250 if rep.suspect else dl)):
            if r is None:
                for sc in t[1]:
                    rep.ob(sc.text(), False, 'no answer')
                failing += t[1]
                continue
            if r[0] == 'ANCHOR':
                raise Anchor(r[1])
            for i, gs, err, tm, fns, obs in r:
                sc = t[1][i]
                rep.count('scenarios')
                rep.cov['functions'].update(fns)
                bad = bool(err)
                rep.ob(sc.text() + ': analysed', not err, err)
                for kind, site, text, fn, ok, n in obs:
                    if kind in kinds:
                        bad |= not rep.ob('%s: %s at %s:%d' % (sc.text(), text, site[0].replace(P.repo, ''), site[1]), ok)
                if bad:
                    failing.append(sc)
        rep.cov['scenarios_not_proved'] = len(failing)
        # members, construction, printing, transforms
        fss = [f for s in SYSTEMS for t in (misc.c13, misc.c18, misc.c19, misc.c20, misc.c21, misc.c22) for f in t(s)] + misc.c23(P)
        for f in fss:
            f.goals = None
        fss += transforms(P)
        fscen.decide(rep, prop, fss, dl, kinds, only=kinds)
        ks = [k for s in sorted(todo) for k in kernels(s, None)]
        if ks:
            fscen.refute(rep, prop, ks, dl, kinds)
        consts = arith.constants()
        rt = []
        for sc in failing:
            for rank, (sz, patt) in enumerate(arith.shapes(sc, consts)):
                rt.append((rank, (prop, sc.clone(sizes=sz), (patt,), kinds)))
        rt.sort(key=lambda t: t[0])
        rt = [t[1] for t in rt]
        for t, r in zip(rt, driver.pmap(refute_op, rt, 100, dl, stop=lambda r: r[0] == 'bad')):
            if r is None:
                continue
            if r[0] == 'ANCHOR':
                raise Anchor(r[1])
            rep.count('bounded_shapes_examined')
            rep.count('exact_states_examined', r[3][0])
            if r[0] == 'bad':
                rep.violation(key(t, r), r[1], r[2])
    return f
