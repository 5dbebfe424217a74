"""Concretisation of an exact abstract state: an integer valuation of the
operand digits under which all the state's facts hold and a goal fails."""
from lin import *
import lin
from fractions import Fraction


def facts_of(S):
    out = []
    for n, b in S.ge.items():
        out.append(n - b)
    for s, rhs in S.eqs.items():
        d = Poly.sym(SYMS[s]) - rhs
        out.append(d)
        out.append(-d)
    return out


def usable(p):
    """only plain integer symbols are left"""
    return all(SYMS[s].kind in ('i', 'd') and e > 0 for m in p.t for s, e in m)


def assign(facts, s, v, R):
    env = {s: C(v)}
    out = []
    for p in facts:
        if any(s == y for m in p.t for y, _ in m):
            q = subst(p, env, R)
            if q.is_const():
                if q.cval() < 0:
                    return None
                continue
            out.append(q)
        else:
            out.append(p)
    return out


def bounds(facts, syms):
    """tightest bounds from single-symbol facts"""
    lo = {s: SYMS[s].lo for s in syms}
    hi = {s: SYMS[s].hi for s in syms}
    for p in facts:
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            s = ms[0][0][0]
            c, k = p.t[ms[0]], p.cval()
            if c > 0:


                # c*s + k >= 0  ->  s >= ceil(-k/c)
                b = -(k // c)
                if lo.get(s) is None or b > lo[s]:
                    lo[s] = b
            else:
                # s <= floor(k / -c)
                b = k // (-c)
                if hi.get(s) is None or b < hi[s]:
                    hi[s] = b
    return lo, hi


class Limit(Exception):
    pass


def find(S, neg, limit=4000, prefer=None):
    """valuation dict or None; neg: list of polys that must be >= 0"""
    R = S.radix
    facts = facts_of(S) + [S.canon(p) for p in neg]
    facts = [p for p in facts if not (p.is_const() and p.cval() >= 0)]
    if any(p.is_const() for p in facts):
        return None
    if not all(usable(p) for p in facts):
        return None
    cnt = [0]

    def go(facts, val):
        cnt[0] += 1
        if cnt[0] > limit:
            raise Limit()
        syms = set()
        for p in facts:
            syms |= {y for m in p.t for y, _ in m}
        if not syms:
            return val
        lo, hi = bounds(facts, syms)
        for s in syms:
            if lo[s] is not None and hi[s] is not None and lo[s] > hi[s]:
                return None
        rows = [(p, '>') for p in facts]
        for s in syms:
            ps = Poly.sym(SYMS[s])
            if lo[s] is not None:
                rows.append((ps - lo[s], '>'))
            if hi[s] is not None:
                rows.append((C(hi[s]) - ps, '>'))
        if not lp(rows):
            return None
        # most constrained first, operands (older symbols) before derived ones
        def key(s):
            w = (hi[s] - lo[s]) if lo[s] is not None and hi[s] is not None else 1 << 400
            return (w if w <= 2 else 3, s)
        s = min(syms, key=key)
        l, h = lo[s], hi[s]
        cand = []
        if l is not None:
            cand += [l, l + 1]
        if h is not None:
            cand += [h, h - 1]
        if l is not None and h is not None:
            cand += [(l + h) // 2, l + 2, h - 2]
            if h - l <= 12:
                cand += list(range(l, h + 1))
        cand += [0, 1, 2, R.B - 1, R.B, R.B // 2]
        seen = set()
        for v in cand:
            if v in seen or (l is not None and v < l) or (h is not None and v > h):
                continue
            seen.add(v)
            f = assign(facts, s, v, R)
            if f is None:
                continue
            d = dict(val)
            d[s] = v
            r = go(f, d)
            if r is not None:
                return r
        return None
    try:
        return go(facts, {})
    except Limit:
        return None


def evaluate(S, p, val, default=0):
    """value of a polynomial of the state under a valuation"""
    p = S.canon(p)
    env = {}
    for s in p.syms():
        env[s] = C(val.get(s, max(default, SYMS[s].lo or 0)))
    q = subst(p, env, S.radix)
    return q.cval() if q.is_const() else None
