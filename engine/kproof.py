"""Proofs of the magnitude kernels' contracts, for operands of any length."""
from ops import *
from lin import SYMS


class KP:
    """outcome for one kernel: goal -> proved?"""

    def __init__(self, name):
        self.name, self.goals, self.obs, self.time, self.modes, self.states, self.err = name, {}, {}, 0, [], 0, None
        self.fns, self.inx, self.loops = set(), set(), 0

    def ok(self, *gs):
        return self.err is None and all(self.goals.get(g) for g in (gs or self.goals))


def merge(kp, goals, E, rs):
    for g, ok in goals.items():
        kp.goals[g] = kp.goals.get(g, False) or ok
    for key, o in E.obs.items():
        p = kp.obs.get(key)
        if p is None:
            kp.obs[key] = o
        elif o.ok and not p.ok:
            kp.obs[key] = o
    kp.states += len(rs)
    kp.fns |= E.fns_seen


def attempt(sy, F, setup, goals, con, modes, kp, budget, hooks=None, prep=None):
    t = time.time()
    for classes in modes:
        E = Engine(sy.P, sy.R, contracts=con, budget=budget)
        E.classes = classes
        if hooks:
            E.hooks.update(hooks)
        st = new_state(sy.R)
        ctx = {}
        if prep:
            prep(E)
        args = setup(st, ctx)
        saturate(st)
        try:
            rs = E.call_fn(F, args, st)
        except (Budget, Unsupported, ValueError, KeyError, RecursionError, AttributeError, TypeError, IndexError) as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            kp.err_last = repr(e)
            continue
        g = {}
        live = [(s, k, v) for s, k, v in rs if not s.store.dead and not s.store.infeasible(())]
        for s, k, v in live:
            for name, ok in goals(E, s, k, v, ctx).items():
                g[name] = g.get(name, True) and ok
        merge(kp, g, E, live)
        kp.modes.append('classes' if classes else 'plain')
        if kp.goals and all(kp.goals.values()) and all(o.ok for o in kp.obs.values()):
            break
    kp.time += time.time() - t
    if not kp.goals:
        kp.err = getattr(kp, 'err_last', 'no outcome')
    return kp


def settle(S, p):
    """carries that are multiplied by a weight in p and can only be zero"""
    ms = list(S.canon(p).t)
    seen = set()
    for n in list(S.ge):
        ms += [m for m in n.t if len(m) == 2 and m not in ms]
    for m in ms:
        ys = [y for y, e in m if SYMS[y].kind == 'i']
        if len(ys) == 1 and len(m) > 1 and all(e == 1 or SYMS[y].kind in ('W', 'Wx') for y, e in m):
            q = Poly.sym(SYMS[ys[0]])
            if ys[0] in S.eqs or ys[0] in seen:
                continue
            seen.add(ys[0])
            if prove_by_cases(S, -q, [p]):
                S.add_eq(q)


def kobj(sy, name):
    return (('arg', name), sy.oc)


def prove_cmp(sy, name, con, budget=300000):
    rel = K_.CMP[name]
    kp = KP(name)
    F = sy.kernel(name)
    if F is None:
        kp.err = 'absent'
        return kp

    def setup(st, ctx):
        a, b = digits(sy, st, 'A'), digits(sy, st, 'B')
        ctx['d'] = st.conts[kobj(sy, 'A')].V - st.conts[kobj(sy, 'B')].V
        return [a, b]

    def goals(E, s, k, v, ctx):
        if k != 'ret' or not isinstance(v, Poly):
            return {'order': False}
        v = s.store.canon(v)
        d = ctx['d']
        S = s.store
        if not v.is_const():
            return {'order': False}
        p = {'eq': d, 'gt': d - 1, 'ge': d, 'lt': -d - 1, 'le': -d}[rel]
        if rel == 'eq':
            ok = prove_eq(s, d) if v.cval() & 1 else (S.prove(d - 1) or S.prove(-d - 1))
        else:
            ok = prove_by_cases(S, p if v.cval() & 1 else -p - 1)
        return {'order': ok}
    return attempt(sy, F, setup, goals, con, (False,), kp, budget)


def prove_add(sy, con, canonical=True, alias=False, budget=300000):
    kp = KP('abs_val_add' + ('' if canonical else '@any') + ('@alias' if alias else ''))
    F = sy.kernel('abs_val_add')
    if F is None:
        kp.err = 'absent'
        return kp

    def setup(st, ctx):
        a = digits(sy, st, 'A', None, canonical)
        b = a if alias else digits(sy, st, 'B', None, canonical)
        ctx['a'], ctx['b'] = st.conts[kobj(sy, 'A')], st.conts[kobj(sy, 'A' if alias else 'B')]
        return [a, b]

    def goals(E, s, k, v, ctx):
        c = s.conts.get(kobj(sy, 'A'))
        a, b = ctx['a'], ctx['b']
        S = s.store
        if k != 'ret' or c is None or c.V is None:
            return {'exact': False}
        g = {'exact': S.prove_eq(c.V - a.V - b.V)}
        if canonical:
            g['canon'] = prove_by_cases(S, K_.canon_goal(E, c), [c.V, E.R.W(c.size)])
            g['size'] = S.prove(c.size - a.size)
        else:
            ok = True
            for t, ge in E.fork(s.copy(), a.size - b.size):
                m = a.size if ge else b.size
                T = t.store
                if T.prove_eq(c.size - m):
                    continue
                if T.prove_eq(c.size - m - 1) and prove_by_cases(T, c.V - E.R.W(m), [c.V]):
                    continue
                ok = False
            g['size'] = ok
        return g
    return attempt(sy, F, setup, goals, con, (False, True), kp, budget)


def prove_sub(sy, con, alias=False, budget=300000):
    kp = KP('abs_val_sub' + ('@alias' if alias else ''))
    F = sy.kernel('abs_val_sub')
    if F is None:
        kp.err = 'absent'
        return kp

    def setup(st, ctx):
        a = digits(sy, st, 'A')
        b = a if alias else digits(sy, st, 'B')
        ctx['a'], ctx['b'] = st.conts[kobj(sy, 'A')], st.conts[kobj(sy, 'A' if alias else 'B')]
        if not alias:
            st.store.add_ge(ctx['a'].V - ctx['b'].V)
        return [a, b]

    def goals(E, s, k, v, ctx):
        c = s.conts.get(kobj(sy, 'A'))
        a, b = ctx['a'], ctx['b']
        S = s.store
        if k != 'ret' or c is None or c.V is None:
            return {'exact': False}
        return {'exact': prove_eq(s, c.V - a.V + b.V),
                'canon': prove_by_cases(S, K_.canon_goal(E, c), [c.V, E.R.W(c.size)]),
                'size': S.prove(a.size - c.size)}
    return attempt(sy, F, setup, goals, con, (False, True), kp, budget)


def prove_mul(sy, name, con, alias=False, budget=300000, hooks=None):
    kp = KP(name + ('@alias' if alias else ''))
    F = sy.kernel(name)
    if F is None:
        kp.err = 'absent'
        return kp

    def setup(st, ctx):
        a = digits(sy, st, 'A')
        b = a if alias else digits(sy, st, 'B')
        ctx['a'], ctx['b'] = st.conts[kobj(sy, 'A')], st.conts[kobj(sy, 'A' if alias else 'B')]
        return [Ptr(('arg', 'R'), 0), a, b]

    def goals(E, s, k, v, ctx):
        c = s.conts.get((('arg', 'R'), 0))
        a, b = ctx['a'], ctx['b']
        S = s.store
        if k != 'ret' or c is None or c.V is None:
            return {'exact': False}
        settle(S, c.V - a.V * b.V)
        K_.top_fact(S, c)
        return {'exact': prove_eq(s, c.V - a.V * b.V),
                'canon': prove_by_cases(S, K_.canon_goal(E, c), [c.V, E.R.W(c.size)])}
    return attempt(sy, F, setup, goals, con, (False,), kp, budget, hooks=hooks)


def prove_double(sy, G, con, budget=300000):
    """a helper (closure) that doubles the number it is given"""
    kp = KP('double:' + G.q.base)

    def setup(st, ctx):
        a = digits(sy, st, 'A')
        ctx['a'] = st.conts[kobj(sy, 'A')]
        return [Ptr(('arg', 'closure'), 0), a]

    def goals(E, s, k, v, ctx):
        c = s.conts.get(kobj(sy, 'A'))
        if k != 'ret' or c is None or c.V is None:
            return {'exact': False}
        return {'exact': prove_eq(s, c.V - ctx['a'].V * 2),
                'canon': prove_by_cases(s.store, K_.canon_goal(E, c), [c.V, E.R.W(c.size)])}
    return attempt(sy, G, setup, goals, con, (False, True), kp, budget)


def prove_div(sy, con, budget=600000, classes=(True,)):
    kp = KP('abs_val_div')
    F = sy.kernel('abs_val_div')
    if F is None:
        kp.err = 'absent'
        return kp

    def setup(st, ctx):
        a, b = digits(sy, st, 'A'), digits(sy, st, 'B')
        ctx['a'], ctx['b'] = st.conts[kobj(sy, 'A')], st.conts[kobj(sy, 'B')]
        st.store.add_ge(ctx['b'].V - 1)
        st.store.add_ge(ctx['a'].V - ctx['b'].V)
        return [a, b]

    def goals(E, s, k, v, ctx):
        c = s.conts.get(kobj(sy, 'A'))
        S = s.store
        if k != 'ret' or c is None or c.V is None:
            return {'exact': False}
        rem = ctx['a'].V - ctx['b'].V * c.V
        return {'exact': S.prove(rem) and S.prove(ctx['b'].V - 1 - rem),
                'canon': prove_by_cases(S, K_.canon_goal(E, c), [c.V, E.R.W(c.size)])}
    return attempt(sy, F, setup, goals, con, classes, kp, budget)
