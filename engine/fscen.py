"""Scenarios for single functions: an entry state, and what must hold at the
end.  First for every length (loop invariants), then, for what could not be
proved, on explicit lengths, looking for an exact state that contradicts it."""
from ops import *
import arith, driver, witness
from arith import path_text, ENGERR


class FS:
    """text: what is run; setup(sy, st, shape, ctx) -> (F, args), shape None
    means any length; goals(sy, ctx, E, s, k, v) -> [Goal]; shapes: lengths
    for the second stage; con(sy) -> contracts of the first stage"""

    def __init__(self, sysname, text, setup, goals=None, shapes=((),), con=None, exc=False, key=None, prep=None, budget=150000, classes=False):
        self.sysname, self.text, self.setup, self.goals, self.shapes = sysname, text, setup, goals, shapes
        self.con, self.exc, self.key, self.prep, self.budget, self.classes = con, exc, key, prep, budget, classes


def execute(fs, shape, peel):
    sy = Sys(arith.P, fs.sysname)
    E = Engine(sy.P, sy.R, contracts=fs.con(sy) if fs.con and not peel else {}, exc=fs.exc, budget=fs.budget)
    E.peel = max([70] + [x + 10 for x in shape or () if x < 2000]) if peel else 0
    E.classes = fs.classes
    st = new_state(sy.R)
    ctx = {}
    if fs.prep:
        fs.prep(sy, E, ctx, peel)
    F, args = fs.setup(sy, st, shape, ctx)
    ctx['F'] = F
    rs = E.call_fn(F, args, st)
    return sy, E, ctx, rs


def prove_task(fs):
    t = time.time()
    try:
        sy, E, ctx, rs = execute(fs, None, False)
    except Anchor:
        raise
    except ENGERR as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        return ([], repr(e), time.time() - t, [], [])
    res = []
    live = 0
    for s, k, v in rs:
        if s.store.dead or s.store.infeasible(()):
            continue
        live += 1
        if fs.goals:
            for g in fs.goals(sy, ctx, E, s, k, v):
                res.append((g.text, bool(g.proved(s))))
    obs = [(o.kind, o.site, o.text, o.fn, o.ok, o.n) for o in E.obs.values()]
    return (res, None if rs or obs else 'no outcome', time.time() - t, sorted(E.fns_seen), obs)


def model(sy, ctx, s, val):
    out = []
    for n, c in ctx.get('show', ()):
        if isinstance(c, Poly):
            out.append('%s = %s' % (n, witness.evaluate(s.store, c, val)))
        elif isinstance(c, str):
            out.append('%s = %s' % (n, c))
        elif c is not None:
            out.append('%s = %s' % (n, arith.digits_text(s, c, val, sy.R)))
    return out


def refute_task(fs, shape, kinds, prop):
    stats = [0, 0]
    try:
        sy, E, ctx, rs = execute(fs, shape, True)
    except Anchor:
        raise
    except ENGERR as e:
        if os.environ.get('VERIF_DEBUG'):
            print(fs.text, shape, repr(e), file=sys.stderr)
        return ('none', None, None, stats)
    F = ctx['F']
    repo = arith.P.repo
    head = 'function %s (%s:%d), digit system %s (%s)' % (F.q.base, F.file.replace(repo, ''), F.line, fs.sysname, sy.elem)
    for o in E.obs.values():
        if o.kind not in kinds or o.ok:
            continue
        for s, p in o.bad:
            if s.inx:
                continue
            stats[0] += 1
            val = witness.find(s.store, [] if isinstance(p, bool) else [-p - 1])
            if val is None:
                continue
            lines = [head, 'rule: %s' % o.text] + model(sy, ctx, s, val) + ['path: ' + x for x in path_text(s.path)]
            return ('bad', '%s:%d: %s: violated: %s (%s)' % (o.site[0].replace(repo, ''), o.site[1], qname(o.fn).base if o.fn else F.q.base, o.text, fs.text),
                    '\n'.join(lines), stats)
    if fs.goals:
        for s, k, v in rs:
            if s.inx or s.store.dead:
                continue
            stats[0] += 1
            for g in fs.goals(sy, ctx, E, s, k, v):
                if g.proved(s):
                    stats[1] += 1
                    continue
                for neg in g.negations(s):
                    val = witness.find(s.store, neg)
                    if val is None:
                        continue
                    lines = [head, 'rule: %s' % g.text] + model(sy, ctx, s, val) + ['outcome: %s %s' % (k, v if not isinstance(v, Poly) else s.store.canon(v))]
                    lines += ['path: ' + x for x in path_text(s.path)]
                    return ('bad', '%s:%d: %s: %s (%s)' % (F.file.replace(repo, ''), F.line, F.q.base, g.text, fs.text), '\n'.join(lines), stats)
    return ('none', None, None, stats)


def decide(rep, prop, scs, deadline, kinds=(), limit=60, only=None, rlimit=100):
    """only: obligation kinds that count (None: all must hold for a proof)"""
    P = arith.P
    res = driver.pmap(prove_task, [(f,) for f in scs], limit, deadline)
    failing = []
    for fs, r in zip(scs, res):
        if r is None:
            rep.ob(fs.text, False, 'no answer')
            failing.append(fs)
            continue
        if r[0] == 'ANCHOR':
            raise Anchor(r[1])
        gs, err, tm, fns, obs = r
        rep.count('scenarios')
        rep.cov.setdefault('functions', set()).update(fns)
        bad = bool(err)
        if err:
            rep.ob(fs.text, False, err)
        for g, ok in gs:
            bad |= not rep.ob('%s: %s' % (fs.text, g), ok)
        for kind, site, text, fn, ok, n in obs:
            if only is not None and kind not in only:
                continue
            bad |= not rep.ob('%s: %s at %s:%d' % (fs.text, text, site[0].replace(P.repo, ''), site[1]), ok)
        if bad:
            failing.append(fs)
    rep.cov['scenarios_not_proved'] = rep.cov.get('scenarios_not_proved', 0) + len(failing)
    refute(rep, prop, failing, deadline, kinds, rlimit)
    return failing


def longer(shapes):
    """lengths next to the constants the library compares with"""
    k = {len(s) for s in shapes}
    if k not in ({1}, {2}) or max(x for s in shapes for x in s if x < 1000) < 3:
        return []
    top = max(x for s in shapes for x in s if x < 1000)
    out = []
    for c in arith.constants(300)[:24]:
        for n in (c + 1, c, c - 1):
            if n > top:
                out += [(n,)] if k == {1} else [(n, 0), (n, n - 1)] + ([(0, n)] if any(a < b < 1000 for a, b in shapes) else [])
    return list(dict.fromkeys(out))


def refute(rep, prop, failing, deadline, kinds=(), rlimit=100):
    tasks = []
    for fs in failing:
        for rank, sh in enumerate(list(fs.shapes) + longer(fs.shapes)):
            tasks.append((rank, (fs, sh, frozenset(kinds), prop)))
    tasks.sort(key=lambda t: t[0])
    tasks = [t[1] for t in tasks]
    res = driver.pmap(refute_task, tasks, rlimit, deadline, stop=lambda r: r[0] == 'bad')
    n = ex = 0
    for t, r in zip(tasks, res):
        if r is None:
            continue
        n += 1
        if r[0] == 'ANCHOR':
            raise Anchor(r[1])
        ex += r[3][0]
        if r[0] == 'bad':
            rep.violation((t[0].key or t[0].text).replace(' ', '_'), r[1], r[2])
    rep.count('bounded_shapes_examined', n)
    rep.count('exact_states_examined', ex)
