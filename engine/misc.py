"""Scenario tables of the properties about single functions."""
from fscen import *
from fscen import FS, decide
import vec

ALLD = (POS, NEG, NAN, PINF, NINF)
LEN = [(0,), (1,), (2,), (3,), (4,)]
OBJ = ('arg', 'A')


def cont_of(sy, s, name):
    return s.conts.get((('arg', name), sy.oc))


def desc_of(sy, s, name):
    m = s.mem.get((('arg', name), sy.od))
    return s.store.canon(m[0]) if m is not None and isinstance(m[0], Poly) else None


def state_goal(sy, s, name, want, text):
    d = desc_of(sy, s, name)
    if d is None:
        return Goal(text, unknown=True)
    return Goal(text, eq=[d - (want if isinstance(want, Poly) else C(sy.desc[want]))])


def same_goal(sy, s, c, c0, text):
    """container c holds exactly the digits of c0"""
    if c is None or c.V is None or c0.V is None:
        return Goal(text, unknown=True)
    a, b = vec.known(s, c), vec.known(s, c0)
    if a is not None and b is not None:
        if len(a) != len(b):
            return Goal(text, truth=False)
        return Goal(text, eq=[x - y for x, y in zip(a, b)])
    return Goal(text, eq=[c.V - c0.V, c.size - c0.size])


def list_goal(sy, s, c, ds, text):
    """container c holds exactly the listed digits"""
    a = vec.known(s, c) if c is not None else None
    if a is None:
        return Goal(text, unknown=True)
    if len(a) != len(ds):
        return Goal(text, truth=False)
    return Goal(text, eq=[x - y for x, y in zip(a, ds)])


def returns(k):
    return Goal('the function returns', truth=k == 'ret')


def with_A(sy, st, shape, ctx, desc=None, minsize=0, canonical=False):
    """number A with any state (symbolic when desc is None)"""
    n = shape[0] if shape else None
    a = number(sy, st, 'A', desc, n, canonical)
    if desc is None:
        d = Poly.sym(fresh('state', 'i', 0, 4))
        st.mem[(OBJ, sy.od)] = (d, 4)
        ctx['dA'] = d
    c = cont_of(sy, st, 'A')
    if minsize:
        st.store.add_ge(c.size - minsize)
    ctx['cA'] = c
    ctx.setdefault('show', []).append(('A', c))
    return a


def digit_arg(sy, F, i, st, name='digit'):
    """argument for a digit passed by value: an integer, or a pointer to a copy
    when the compiler passes the wrapper indirectly"""
    d = Poly.sym(fresh(name, 'i', 0, sy.M))
    t = F.args[i]['ty'] if isinstance(F.args[i], dict) else F.args[i][1] if isinstance(F.args[i], (list, tuple)) else F.args[i]
    if t == 'ptr':
        o = ('arg', name)
        st.mem[(o, 0)] = (d, sy.es)
        return d, Ptr(o, 0)
    return d, d


# ------------------------------------------------------------------ C13
def c13(sysname):
    out = []
    for const in (False, True):
        def setup(sy, st, shape, ctx, const=const):
            F = sy.fn('Bignum::operator[]', None, lambda F: F.q.const == const)
            a = with_A(sy, st, shape, ctx)
            i = Poly.sym(fresh('index', 'i', 0, (1 << 64) - 1)) if not shape or shape[1] is None else C(shape[1])
            ctx['i'] = i
            ctx['show'].append(('index', i))
            # an indirectly returned digit
            args = [a, i]
            if len(F.args) == 3:
                args = [Ptr(('arg', 'ret'), 0)] + args
                ctx['sret'] = True
            return F, args

        def goals(sy, ctx, E, s, k, v, const=const):
            c, i = ctx['cA'], ctx['i']
            S = s.store
            if k == 'ret':
                g = [Goal('an index that is not below the digit count throws', ge=[c.size - i - 1])]
                if isinstance(v, EPtr):
                    g.append(Goal('the addressed digit is returned', eq=[v.idx - i]) if v.c == (OBJ, sy.oc) else Goal('the addressed digit is returned', truth=False))
                else:
                    if ctx.get('sret'):
                        m = s.mem.get((('arg', 'ret'), 0))
                        v = m[0] if m else None
                    if isinstance(v, Poly):
                        w = None
                        ds = vec.known(s, c)
                        if ds is not None:
                            ii = S.canon(i)
                            if ii.is_const() and ii.cval() < len(ds):
                                w = ds[ii.cval()]
                        else:
                            w = E.R.dig(c.base, S.canon(i)) if c.base is not None else None
                        g.append(Goal('the addressed digit is returned', eq=[v - w]) if w is not None else Goal('the addressed digit is returned', unknown=True))
                    else:
                        g.append(Goal('the addressed digit is returned', unknown=True))
                g.append(same_goal(sy, s, cont_of(sy, s, 'A'), c, 'subscripting changes no digit'))
                return g
            if k == 'exc':
                return [Goal('an index below the digit count does not throw', ge=[i - c.size])]
            return [Goal('subscripting returns or throws', truth=False)]
        shapes = [(n, i) for n in range(4) for i in list(range(n + 2)) + [(1 << 64) - 1]]
        out.append(FS(sysname, '%s: %soperator[]' % (sysname, 'const ' if const else ''), setup, goals, shapes, key='C13:operator[]' + ('const' if const else '')))
    return out


# ------------------------------------------------------------------ C20
QUERIES = {'isPositive': (1, 0, 0, 1, 0), 'isNegative': (0, 1, 0, 0, 1), 'isInfinite': (0, 0, 0, 1, 1), 'isNan': (0, 0, 1, 0, 0)}


def c20(sysname):
    out = []
    for d in ALLD:
        for m, tab in QUERIES.items():
            def setup(sy, st, shape, ctx, m=m, d=d):
                return sy.fn('Bignum::' + m, 0), [with_A(sy, st, shape, ctx, d)]

            def goals(sy, ctx, E, s, k, v, m=m, d=d, tab=tab):
                g = [returns(k)]
                if isinstance(v, Poly):
                    g.append(Goal('%s of %s is %s' % (m, DNAME[d], bool(tab[d])), eq=[v - tab[d]]))
                else:
                    g.append(Goal('%s has a value' % m, unknown=True))
                return g + [same_goal(sy, s, cont_of(sy, s, 'A'), ctx['cA'], 'a query changes nothing'), state_goal(sy, s, 'A', d, 'a query keeps the state')]
            out.append(FS(sysname, '%s: %s of %s' % (sysname, m, DNAME[d]), setup, goals, LEN, key='C20:' + m))

        def setup(sy, st, shape, ctx, d=d):
            return sy.fn('Bignum::getDescriptor', 0), [with_A(sy, st, shape, ctx, d)]

        def goals(sy, ctx, E, s, k, v, d=d):
            return [returns(k), Goal('getDescriptor returns the state', eq=[v - sy.desc[d]]) if isinstance(v, Poly) else Goal('value', unknown=True)]
        out.append(FS(sysname, '%s: getDescriptor of %s' % (sysname, DNAME[d]), setup, goals, LEN, key='C20:getDescriptor'))

        def setup(sy, st, shape, ctx, d=d):
            return sy.fn('Bignum::isComputable', 1), [C(sy.desc[d])]

        def goals(sy, ctx, E, s, k, v, d=d):
            return [returns(k), Goal('isComputable(%s) is %s' % (DNAME[d], d in (POS, NEG)), eq=[v - int(d in (POS, NEG))]) if isinstance(v, Poly) else Goal('value', unknown=True)]
        out.append(FS(sysname, '%s: isComputable(%s)' % (sysname, DNAME[d]), setup, goals, ((),), key='C20:isComputable'))

        def setup(sy, st, shape, ctx, d=d):
            return sy.fn('Bignum::setDescriptor', 1), [with_A(sy, st, shape, ctx), C(sy.desc[d])]

        def goals(sy, ctx, E, s, k, v, d=d):
            c = cont_of(sy, s, 'A')
            g = [returns(k), state_goal(sy, s, 'A', d, 'setDescriptor stores the state')]
            if c is None:
                return g + [Goal('digits', unknown=True)]
            if d in (POS, NEG):
                return g + [same_goal(sy, s, c, ctx['cA'], 'a finite state keeps the digits')]
            return g + [Goal('NaN and infinities drop the digits', eq=[c.size])]
        out.append(FS(sysname, '%s: setDescriptor(%s)' % (sysname, DNAME[d]), setup, goals, LEN, key='C20:setDescriptor'))

    def setup(sy, st, shape, ctx):
        return sy.fn('Bignum::clear', 0), [with_A(sy, st, shape, ctx)]

    def goals(sy, ctx, E, s, k, v):
        c = cont_of(sy, s, 'A')
        return [returns(k), state_goal(sy, s, 'A', POS, 'clear gives a positive number'), Goal('clear drops the digits', eq=[c.size]) if c is not None else Goal('digits', unknown=True)]
    out.append(FS(sysname, '%s: clear' % sysname, setup, goals, LEN, key='C20:clear'))
    return out


# ------------------------------------------------------------------ C21
def c21(sysname):
    out = []

    def add(m, minsize, withdigit, pos, model):
        """pos: None, 'ins' (0..n) or 'del' (0..n-1); model(n, i, d, c, R) -> (size, V) and list form"""
        def setup(sy, st, shape, ctx):
            F = sy.fn('Bignum::' + m, withdigit + (pos is not None))
            a = with_A(sy, st, shape, ctx, None, minsize)
            args = [a]
            n = ctx['cA'].size
            if withdigit:
                d, v = digit_arg(sy, F, 1, st)
                ctx['d'] = d
                ctx['show'].append(('digit', d))
                args.append(v)
            if pos is not None:
                i = Poly.sym(fresh('pos', 'i', 0, SIZEMAX)) if not shape else C(shape[1])
                st.store.add_ge(n - i - (1 if pos == 'del' else 0))
                ctx['i'] = i
                ctx['show'].append(('position', i))
                args.append(i)
            return F, args

        def goals(sy, ctx, E, s, k, v):
            c, c0 = cont_of(sy, s, 'A'), ctx['cA']
            if k != 'ret':
                return [returns(k)]
            if c is None or c.V is None:
                return [Goal('the digits are known', unknown=True)]
            R = E.R
            g = [state_goal(sy, s, 'A', ctx['dA'], '%s keeps the state' % m)]
            n = s.store.canon(c0.size)
            ds = vec.known(s, c0)
            if ds is not None and vec.known(s, c) is not None:
                i = {'push_front': 0, 'pop_front': 0, 'push_back': len(ds), 'pop_back': len(ds) - 1}.get(m)
                if i is None:
                    i = int(s.store.canon(ctx['i']).cval())
                want = ds[:i] + [ctx['d']] + ds[i:] if withdigit else ds[:i] + ds[i + 1:]
                return g + [list_goal(sy, s, c, want, '%s touches exactly the addressed digit' % m)]
            i = {'push_front': ZERO, 'pop_front': ZERO, 'push_back': n, 'pop_back': n - 1}.get(m, ctx.get('i'))
            i = s.store.canon(i)
            lo = R.P(c0.base, i)
            if withdigit:
                V, n2 = lo + R.W(i) * ctx['d'] + (c0.V - lo) * R.B, n + 1
            else:
                # lo + (V - P(i+1)) / B
                V, n2 = (c0.V - R.P(c0.base, i + 1)) * R.W(C(-1)) + lo, n - 1
            return g + [Goal('%s touches exactly the addressed digit' % m, eq=[c.size - n2, c.V - V])]
        shapes = [(n,) for n in range(minsize, 4)] if pos is None else [(n, i) for n in range(minsize, 4) for i in range(n + (pos == 'ins'))]
        out.append(FS(sysname, '%s: %s' % (sysname, m), setup, goals, shapes, key='C21:' + m))
    add('push_front', 0, 1, None, None)
    add('push_back', 0, 1, None, None)
    add('pop_front', 1, 0, None, None)
    add('pop_back', 1, 0, None, None)
    add('push', 0, 1, 'ins', None)
    add('pop', 1, 0, 'del', None)

    def setup(sy, st, shape, ctx):
        F = sy.fn('Bignum::resize', 2)
        a = with_A(sy, st, shape, ctx)
        n = Poly.sym(fresh('n', 'i', 0, SIZEMAX)) if not shape else C(shape[1])
        d, v = digit_arg(sy, F, 2, st)
        ctx['n'], ctx['d'] = n, d
        ctx['show'] += [('n', n), ('digit', d)]
        return F, [a, n, v]

    def goals(sy, ctx, E, s, k, v):
        c, c0, R = cont_of(sy, s, 'A'), ctx['cA'], E.R
        if k != 'ret':
            return [returns(k)]
        if c is None or c.V is None:
            return [Goal('the digits are known', unknown=True)]
        g = [state_goal(sy, s, 'A', ctx['dA'], 'resize keeps the state')]
        ds = vec.known(s, c0)
        if ds is not None and vec.known(s, c) is not None:
            n = int(s.store.canon(ctx['n']).cval())
            return g + [list_goal(sy, s, c, (ds + [ctx['d']] * n)[:n], 'resize keeps the digits and appends the given one')]
        g.append(Goal('resize gives the requested length', eq=[c.size - ctx['n']]))
        n0 = c0.size
        S = s.store
        if S.prove(ctx['n'] - n0):
            g.append(Goal('resize keeps the digits and appends the given one', eq=[(c.V - c0.V) * (R.B - 1) - ctx['d'] * (R.W(ctx['n']) - R.W(n0))]))
        elif S.prove(n0 - ctx['n']):
            g.append(Goal('resize drops the most significant digits', eq=[c.V - R.P(c0.base, S.canon(ctx['n']))]))
        else:
            g.append(Goal('direction', unknown=True))
        return g
    out.append(FS(sysname, '%s: resize' % sysname, setup, goals, [(n, m) for n in range(4) for m in range(5)], key='C21:resize'))

    def setup(sy, st, shape, ctx):
        return sy.fn('Bignum::size', 0), [with_A(sy, st, shape, ctx)]

    def goals(sy, ctx, E, s, k, v):
        return [returns(k), Goal('size reports the number of stored digits', eq=[v - ctx['cA'].size]) if isinstance(v, Poly) else Goal('size', unknown=True),
                same_goal(sy, s, cont_of(sy, s, 'A'), ctx['cA'], 'size changes nothing')]
    out.append(FS(sysname, '%s: size' % sysname, setup, goals, LEN, key='C21:size'))

    def setup(sy, st, shape, ctx):
        return sy.fn('Bignum::getData', 0), [with_A(sy, st, shape, ctx)]

    def goals(sy, ctx, E, s, k, v):
        return [returns(k), Goal('the raw view is the stored digits', truth=v == Ptr(OBJ, sy.oc)) if isinstance(v, Ptr) else Goal('view', unknown=True),
                same_goal(sy, s, cont_of(sy, s, 'A'), ctx['cA'], 'the raw view changes nothing')]
    out.append(FS(sysname, '%s: getData' % sysname, setup, goals, LEN, key='C21:getData'))
    return out


# ------------------------------------------------------------------ C22
def c22(sysname):
    out = []
    for what in ('copy constructor', 'move constructor', 'copy assignment', 'move assignment', 'copy self-assignment'):
        def setup(sy, st, shape, ctx, what=what):
            mv = what.startswith('move')
            base = 'Bignum::Bignum' if 'constructor' in what else 'Bignum::operator='
            F = sy.fn(base, 1, lambda F: F.q.params.startswith('Bignum<') and F.q.params.endswith('&&') == mv)
            b = number(sy, st, 'B', None, shape[0] if shape else None, False)
            d = Poly.sym(fresh('state', 'i', 0, 4))
            st.mem[(('arg', 'B'), sy.od)] = (d, 4)
            ctx['d'], ctx['cB'] = d, cont_of(sy, st, 'B')
            ctx['show'] = [('source', ctx['cB']), ('state', d)]
            if what == 'copy self-assignment':
                return F, [b, b]
            if 'assignment' in what:
                a = with_A(sy, st, (shape[1],) if shape else None, ctx)
            else:
                a = Ptr(OBJ, 0)
                if sy.oc >= 0:
                    pass
            return F, [a, b]

        def goals(sy, ctx, E, s, k, v, what=what):
            t = 'B' if 'self' in what else 'A'
            g = [returns(k)]
            if k != 'ret':
                return g
            c = cont_of(sy, s, t)
            g.append(state_goal(sy, s, t, ctx['d'], 'the target of the %s has the state of the source' % what))
            g.append(same_goal(sy, s, c, ctx['cB'], 'the target of the %s has the digits of the source' % what))
            if what.startswith('copy'):
                g.append(state_goal(sy, s, 'B', ctx['d'], 'the source of the %s keeps its state' % what))
                g.append(same_goal(sy, s, cont_of(sy, s, 'B'), ctx['cB'], 'the source of the %s keeps its digits' % what))
            if 'assignment' in what:
                g.append(Goal('the %s returns the target' % what, truth=v == Ptr(('arg', t), 0)) if isinstance(v, Ptr) else Goal('reference', unknown=True))
            return g
        shapes = [(n, m) for n in range(4) for m in (0, 1, 2, 3)]
        out.append(FS(sysname, '%s: %s' % (sysname, what), setup, goals, shapes, key='C22:' + what.replace(' ', '_')))
    return out


# ------------------------------------------------------------------ C19
def c19(sysname):
    out = []
    for d in ALLD:
        def setup(sy, st, shape, ctx, d=d):
            F = sy.fn('Bignum::Bignum', 2)
            n = Poly.sym(fresh('listlen', 'i', 0, SIZEMAX)) if not shape else C(shape[0])
            o = ('arg', 'list')
            if shape:
                ds = [Poly.sym(fresh('list[%d]' % i, 'i', 0, sy.M)) for i in range(shape[0])]
                c = vec.explicit_of(sy.R, 'fixed', sy.M, sy.es, ds)
                ctx['ds'] = ds
                c = c._replace(kind='fixed')
            else:
                c = vec.mk(st, 'list', 'fixed', sy.M, sy.es, n)
                c.base.digits = True
            st.conts[(o, 0)] = c
            ctx['cL'], ctx['n'] = c, n
            ctx['show'] = [('list', c)]
            return F, [Ptr(OBJ, 0), C(sy.desc[d]), EPtr((o, 0), ZERO, 0), n]

        def goals(sy, ctx, E, s, k, v, d=d):
            if k != 'ret':
                return [returns(k)]
            c, R = cont_of(sy, s, 'A'), E.R
            if c is None or c.V is None:
                return [Goal('the digits are known', unknown=True)]
            dd = desc_of(sy, s, 'A')
            if d not in (POS, NEG):
                return [state_goal(sy, s, 'A', d, 'the given state is kept'), Goal('a number built as NaN or infinity has no digits', eq=[c.size])]
            L = ctx['cL']
            g = [Goal('exactly the listed value is stored', eq=[c.V - L.V]), Goal('no leading zero digit is stored', canon=c)]
            ds = vec.known(s, c)
            if ds is not None:
                g.append(Goal('every stored digit is smaller than the radix', ge=[C(sy.M) - x for x in ds]))
            if dd is None:
                return g + [Goal('state', unknown=True)]
            dc = s.store.canon(dd)
            if dc.is_const():
                if dc.cval() == sy.desc[d]:
                    if d == NEG:
                        g.append(Goal('the one zero is not negative', ge=[L.V - 1]))
                elif d == NEG and dc.cval() == sy.desc[POS]:
                    g.append(Goal('the given state is kept unless the value is zero', eq=[L.V]))
                else:
                    g.append(Goal('the given state is kept', truth=False))
            else:
                g.append(Goal('state', unknown=True))
            return g
        out.append(FS(sysname, '%s: Bignum(%s, {...})' % (sysname, DNAME[d]), setup, goals, [(n,) for n in range(5)], key='C19:Bignum'))

    def setup(sy, st, shape, ctx):
        F = sy.fn('Bignum::Bignum', 0)
        return F, [Ptr(OBJ, 0)]

    def goals(sy, ctx, E, s, k, v):
        c = cont_of(sy, s, 'A')
        return [returns(k), state_goal(sy, s, 'A', POS, 'the default number is not negative'), Goal('the default number is zero', eq=[c.size]) if c is not None else Goal('digits', unknown=True)]
    out.append(FS(sysname, '%s: Bignum()' % sysname, setup, goals, [()], key='C19:default'))
    return out


# ------------------------------------------------------------------ C18
STREAM = ('arg', 'stream')


def c18(sysname):
    out = []
    for d in ALLD:
        def setup(sy, st, shape, ctx, d=d):
            r = [F for F in sy.P.fns.values() if not F.decl and F.q.base == 'operator<<' and F.q.params.split(',')[0].startswith('std::') and 'ostream' in F.q.params
                 and sy.P.in_repo(F) and 'Bignum<' in F.q.params and first_vec(F.dem) == sy.elem]
            if not r:
                raise Anchor('operator<< of ' + sysname)
            a = with_A(sy, st, shape, ctx, d)
            if not shape:
                # digits printed so far, first digit leftmost
                st.conts[(('stream', STREAM), 0)] = Cont('stream', None, 1, ZERO, ZERO, None, ZERO, ZERO, ZERO, ZERO, (), True, None, 0, None)
            return r[0], [Ptr(STREAM, 0), a]

        def goals(sy, ctx, E, s, k, v, d=d):
            if k != 'ret':
                return [returns(k)]
            c0 = ctx['cA']
            ev = [e for e in s.events if e[0] == 'out']
            mine = [e for e in ev if e[1] == STREAM]
            other = [e for e in ev if e[1] != STREAM]
            g = [Goal('nothing is written elsewhere', truth=not other)]
            if isinstance(v, Ptr):
                g.append(Goal('the stream is returned', truth=v == Ptr(STREAM, 0)))
            text = {PINF: '+INF', NINF: '-INF', NAN: 'NaN'}.get(d)
            if text is not None:
                got = flat(s, mine)
                if got is None:
                    return g + [Goal('%s is written' % text, unknown=True)]
                return g + [Goal('%s is written' % text, truth=got == [text])]
            ds = vec.known(s, c0)
            sc = s.conts.get((('stream', STREAM), 0))
            if ds is not None:
                got = flat(s, mine)
                if got is None:
                    return g + [Goal('the text is known', unknown=True)]
                want = (['-'] if d == NEG else []) + (list(reversed(ds)) if ds else ['0'])
                if not ds:
                    got = [str(s.store.canon(x).cval()) if isinstance(x, Poly) and s.store.canon(x).is_const() else x for x in got]
                    got, want = join(got), join(want)
                if len(got) != len(want):
                    return g + [Goal('the sign, then every digit once is written', truth=False)]
                eqs = []
                for a, b in zip(got, want):
                    if isinstance(a, Poly) and isinstance(b, Poly):
                        eqs.append(a - b)
                    elif isinstance(a, Poly) or isinstance(b, Poly):
                        p = a if isinstance(a, Poly) else b
                        t = b if isinstance(a, Poly) else a
                        if t.isdigit() and int(t) < sy.B and str(int(t)) == t:
                            eqs.append(p - int(t))
                        else:
                            return g + [Goal('the sign, then every digit once is written', truth=False)]
                    elif a != b:
                        return g + [Goal('the sign, then every digit once is written', truth=False)]
                return g + [Goal('the digits are written from the most significant to the least', eq=eqs)]
            # any length: text outside the digit loop, and the digits as a number
            R, S = E.R, s.store
            nums = [e for e in mine if e[2][0] == 'num']
            rest = flat(s, [e for e in mine if e[2][0] != 'num'])
            if sc is None or sc.V is None or rest is None:
                return g + [Goal('the text is known', unknown=True)]
            zero = S.prove(-c0.size)
            sign = ['-'] if d == NEG else []
            if zero:
                return g + [Goal('zero is written as 0', truth=True if rest == join(sign + ['0']) and not nums else None, unknown=not (rest == join(sign + ['0']) and not nums))]
            if not S.prove(c0.size - 1):
                return g + [Goal('zero is written as 0', unknown=True)]
            ok = rest == join(sign) and first_out(mine, bool(sign))
            return g + [Goal('the sign comes first and nothing else is written', truth=True if ok else None, unknown=not ok),
                        Goal('the digits are written once each, from the most significant to the least', eq=[sc.size - c0.size, sc.V * R.W(c0.size - 1) - c0.V])]
        out.append(FS(sysname, '%s: printing %s' % (sysname, DNAME[d]), setup, goals, LEN + [(6,), (9,)], key='C18:operator<<'))
    return out


def first_out(mine, sign):
    """the sign precedes every digit"""
    if not sign:
        return True
    return bool(mine) and mine[0][2][0] != 'num'


def join(parts):
    """adjacent strings merged"""
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return out


def flat(s, evs):
    """list of strings and numbers written, or None"""
    out = []
    for e in evs:
        w = e[2]
        if w[0] == 'str':
            if w[1] is None:
                return None
            out.append(w[1])
        elif w[0] == 'char':
            c = s.store.canon(w[1]) if isinstance(w[1], Poly) else None
            if c is None or not c.is_const():
                return None
            out.append(chr(int(c.cval()) & 255))
        elif w[0] == 'num':
            out.append(w[1])
        else:
            return None
    return join(out)


# ------------------------------------------------------------------ C23
CERR, COUT = '_ZSt4cerr', '_ZSt4cout'


def c23(P):
    out = []
    sev = wit(P, 'wit_severity')
    A, W, ER = sev[0], sev[4], sev[8]
    for name, t in (('alert', A), ('warning', W), ('error', ER)):
        for cond in (0, 1):
            def setup(sy, st, shape, ctx, t=t, cond=cond):
                r = [F for F in P.fns.values() if not F.decl and F.q.base == 'bn_runtime_assert']
                if not r:
                    raise Anchor('bn_runtime_assert')
                return r[0], [C(cond), C(t), Ptr(('arg', 'msg'), 0)]

            def goals(sy, ctx, E, s, k, v, t=t, cond=cond):
                ev = [e for e in s.events if e[0] == 'out']
                if cond:
                    return [Goal('a condition that holds returns', truth=k == 'ret'), Goal('a condition that holds writes nothing', truth=not ev)]
                want = COUT if t == A else CERR
                on = [e for e in ev if e[1] == ('g', want)]
                msgs = [e for e in on if e[2] == ('ptr', Ptr(('arg', 'msg'), 0))]
                unk = [e for e in ev if e[1] == ('?',) or (e[2][0] == 'ptr' and e[2][1] != Ptr(('arg', 'msg'), 0)) or e[2] == ('str', None)]
                g = []
                where = 'standard output' if t == A else 'standard error'
                other = [e for e in ev if e[1] != ('g', want) and e[1] != ('?',)]
                g.append(Goal('a failed %s writes only to %s' % (sevname(t, sev), where), truth=not other))
                if unk and len(msgs) != 1:
                    g.append(Goal('the message is written exactly once', unknown=True))
                else:
                    g.append(Goal('a failed %s writes its message exactly once to %s' % (sevname(t, sev), where), truth=len(msgs) == 1))
                g.append(Goal('a failed %s %s' % (sevname(t, sev), 'throws' if t == ER else 'does not throw'), truth=k == ('exc' if t == ER else 'ret')))
                return g
            out.append(FS('base10', 'bn_runtime_assert(%s, %s)' % (bool(cond), name), setup, goals, [()], key='C23:bn_runtime_assert'))
    for c in ('BNNaN', 'BNUnderflow'):
        def setup(sy, st, shape, ctx, c=c):
            r = [F for F in P.fns.values() if not F.decl and F.q.base == c + '::what']
            if not r:
                raise Anchor(c + '::what')
            return r[0], [Ptr(('arg', 'this'), 0)]

        def goals(sy, ctx, E, s, k, v):
            g = [Goal('what() returns without throwing', truth=k == 'ret' and not [e for e in s.events if e[0] in ('cxa_throw', 'terminate')])]
            t = vec.cstr(E, s, v) if isinstance(v, Ptr) else None
            if v is NULL:
                g.append(Goal('what() describes the exception', truth=False))
            elif t is None:
                g.append(Goal('what() describes the exception', unknown=True))
            else:
                g.append(Goal('what() describes the exception', truth=bool(t)))
            return g
        out.append(FS('base10', '%s::what()' % c, setup, goals, [()], key='C23:%s::what' % c))
    return out


def sevname(t, sev):
    return {sev[0]: 'alert', sev[4]: 'warning', sev[8]: 'error'}[t]


# ------------------------------------------------------------------ C09
def c09(sysname):
    """every const member but the operators on two numbers, and printing"""
    sy0 = Sys(arith.P, sysname)
    fns = []
    for F in arith.P.fns.values():
        if F.decl or not arith.P.in_repo(F):
            continue
        ps = split_top(F.q.params)
        if F.q.const and F.q.base.startswith('Bignum::') and first_vec(F.dem) == sy0.elem and len(ps) <= 1 and 'Bignum<' not in F.q.params:
            fns.append((F, False))
        elif F.q.base == 'operator<<' and ps and ps[0].startswith('std::') and 'ostream' in ps[0] and 'Bignum<' in F.q.params and first_vec(F.dem) == sy0.elem:
            fns.append((F, True))
    if not [1 for F, pr in fns if pr] or len(fns) < 6:
        raise Anchor('queries and printing of ' + sysname)
    out = []
    for F, printing in fns:
        for d in ALLD:
            def setup(sy, st, shape, ctx, d=d, F=F, printing=printing):
                a = with_A(sy, st, shape, ctx, d)
                if printing:
                    if not shape:
                        st.conts[(('stream', STREAM), 0)] = Cont('stream', None, 1, ZERO, ZERO, None, ZERO, ZERO, ZERO, ZERO, (), True, None, 0, None)
                    return F, [Ptr(STREAM, 0), a]
                args = [a] + [Poly.sym(fresh('index', 'i', 0, (1 << 64) - 1)) for _ in split_top(F.q.params)]
                if len(F.args) > len(args):
                    args = [Ptr(('arg', 'ret'), 0)] + args
                return F, args

            def goals(sy, ctx, E, s, k, v, d=d, F=F, printing=printing):
                if k not in ('ret', 'exc'):
                    return []
                what = 'printing' if printing else F.q.base.split('::')[-1]
                return [state_goal(sy, s, 'A', d, '%s keeps the state' % what), same_goal(sy, s, cont_of(sy, s, 'A'), ctx['cA'], '%s keeps the digits' % what)]
            out.append(FS(sysname, '%s: %s of %s' % (sysname, 'printing' if printing else F.q.base.split('::')[-1], DNAME[d]), setup, goals, LEN, key='C09:' + F.q.base))
    return out


# ------------------------------------------------------------------ C11
def c11(sysname, con):
    out = []
    for op in ('+=', '-=', '*=', '/='):
        for da in FIN2:
            for db in FIN2:
                def setup(sy, st, shape, ctx, op=op, da=da, db=db):
                    F = sy.fn('Bignum::' + OPS[op], 1)
                    a = with_A(sy, st, (shape[0],) if shape else None, ctx, da, canonical=True)
                    b = number(sy, st, 'B', db, shape[1] if shape else None, True)
                    ctx['cB'] = cont_of(sy, st, 'B')
                    ctx['show'].append(('B', ctx['cB']))
                    if shape and op == '/=':
                        st.store.add_ge(ctx['cB'].V * 9 - ctx['cA'].V)
                    return F, [a, b]

                def goals(sy, ctx, E, s, k, v, op=op, db=db):
                    if k != 'exc':
                        return []
                    thrown = [e for e in s.events if e[0] == 'throw']
                    if not thrown:
                        return []
                    c = cont_of(sy, s, 'A')
                    dd = desc_of(sy, s, 'A')
                    g = []
                    if c is None or dd is None:
                        g.append(Goal('state of the left operand', unknown=True))
                    else:
                        dc = s.store.canon(dd)
                        if dc.is_const():
                            g.append(Goal('%s that failed leaves the left operand infinite' % op, truth=dc.cval() in (sy.desc[PINF], sy.desc[NINF])))
                        else:
                            g.append(Goal('state of the left operand', unknown=True))
                        g.append(Goal('%s that failed leaves the left operand without digits' % op, eq=[c.size]))
                    g.append(state_goal(sy, s, 'B', db, '%s that failed keeps the state of the right operand' % op))
                    g.append(same_goal(sy, s, cont_of(sy, s, 'B'), ctx['cB'], '%s that failed keeps the digits of the right operand' % op))
                    while isinstance(v, tuple) and v and v[0] == 'resume':
                        v = v[1]
                    new = isinstance(v, tuple) and v and v[0] == 'new'
                    g.append(Goal('the caller receives the exception that was thrown, not another one', truth=not new))
                    return g
                out.append(FS(sysname, '%s: %s %s %s with a failing allocation' % (sysname, DNAME[da], op, DNAME[db]), setup, goals,
                              [(n, m) for n in range(4) for m in range(3)], con=lambda sy: con, exc=True, key='C11:' + op))
    return out


FIN2 = (POS, NEG)
