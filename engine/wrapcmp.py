"""C15: every wrapper operator has the same meaning as the built-in operator.

Both are compiled to straight-line code over the same inputs and reduced to
terms (hash-consed, commutative operands ordered).  Equal terms for every
stored result prove the equality for all inputs.  When terms differ, constants
are folded through both to find inputs on which they disagree."""
import re, subprocess, os
from ir import *
from ops import Anchor

COMM = ('add', 'mul', 'and', 'or', 'xor')
STRAIGHT = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc', 'icmp', 'select', 'freeze'}


class No(Exception):
    pass


def terms(F):
    """what the function stores, as terms over its arguments"""
    if len(F.blocks) != 1:
        raise No('branches')
    V = {i: ('arg', i) for i in range(len(F.args))}
    mem = {}
    for x in F.blocks[0]:
        op = x['op']

        def val(o):
            if o[0] == 'v':
                return V[o[1]]
            if o[0] == 'i':
                return ('i', int(o[1]), o[2])
            raise No('operand')
        if op in STRAIGHT:
            a = [val(o) for o in x['ops']]
            if op == 'freeze':
                V[x['id']] = a[0]
                continue
            if op in COMM or op == 'icmp' and x['pred'] in ('eq', 'ne'):
                a = sorted(a, key=repr)
            V[x['id']] = (op, x.get('pred', ''), x['ty']) + tuple(a)
        elif op == 'getelementptr':
            if x.get('var') or 'off' not in x:
                raise No('address')
            b = val(x['ops'][0])
            off = 0
            if b[0] == 'addr':
                b, off = b[1], b[2]
            V[x['id']] = ('addr', b, off + x['off'])
        elif op == 'store':
            p = val(x['ops'][1])
            if p[0] != 'addr':
                p = ('addr', p, 0)
            mem[p] = (val(x['ops'][0]), x['msize'])
        elif op == 'load':
            p = val(x['ops'][0])
            if p[0] != 'addr':
                p = ('addr', p, 0)
            if p in mem and mem[p][1] == x['msize']:
                V[x['id']] = mem[p][0]
            else:
                raise No('load')
        elif op == 'ret':
            if x['ops']:
                mem['ret'] = (val(x['ops'][0]), 0)
        elif op == 'call' and x['callee'][0] == 'g' and x['callee'][1].startswith(('llvm.dbg', 'llvm.lifetime')):
            pass
        else:
            raise No(op)
    return mem


def shape(F):
    """the code with values numbered in order: equal for isomorphic functions"""
    num = {i: i for i in range(len(F.args))}
    n = len(num)
    for b in F.blocks:
        for x in b:
            num[x['id']] = n
            n += 1

    def o_(o):
        return ('v', num.get(o[1])) if o[0] == 'v' else tuple(map(str, o))
    out = []
    for b in F.blocks:
        blk = []
        for x in b:
            if x['op'] == 'call' and x['callee'][0] == 'g' and x['callee'][1].startswith(('llvm.dbg', 'llvm.lifetime')):
                continue
            blk.append((x['op'], x.get('ty'), x.get('pred'), tuple(o_(o) for o in x.get('ops', ())), tuple(x.get('callee', ())), tuple(x.get('succ', ())),
                        tuple((p, o_(o)) for p, o in x.get('inc', ())), x.get('off'), tuple((o_(v[0]), v[1]) for v in x.get('var', ())), x.get('msize')))
        out.append(tuple(blk))
    return tuple(out)


def bits(t):
    return int(t[1:])


def fold(F, args, limit=20000):
    """stored constants of the optimised code on constant arguments, with the
    calls it makes; None when an operation has no meaning"""
    V = dict(enumerate(args))
    mem = {}
    trace = []
    b, prev, steps = 0, None, 0

    def val(o):
        if o[0] == 'v':
            return V[o[1]]
        if o[0] == 'i':
            return int(o[1])
        if o[0] == 'n':
            return ('p', 'null', 0)
        if o[0] == 'g':
            return ('p', o[1], o[2])
        raise No('operand')
    while True:
        new = {}
        for x in F.blocks[b]:
            if x['op'] == 'phi':
                for p, o in x['inc']:
                    if p == prev:
                        new[x['id']] = val(o)
        V.update(new)
        nxt = None
        for x in F.blocks[b]:
            op = x['op']
            steps += 1
            if steps > limit:
                raise No('too long')
            if op == 'phi':
                continue
            if op in STRAIGHT:
                a = [val(o) for o in x['ops']]
                if op in ('select', 'freeze'):
                    V[x['id']] = (a[1] if a[0] else a[2]) if op == 'select' else a[0]
                    continue
                if any(not isinstance(k, int) for k in a):
                    if op == 'icmp' and x['pred'] in ('eq', 'ne'):
                        V[x['id']] = int((a[0] == a[1]) == (x['pred'] == 'eq'))
                        continue
                    raise No('pointer arithmetic')
                if op == 'icmp':
                    w = bits(x['cty'])
                    p = x['pred']
                    l, r = a
                    if p[0] == 's':
                        l, r = sg(l, w), sg(r, w)
                    V[x['id']] = int({'eq': l == r, 'ne': l != r}.get(p, {'gt': l > r, 'ge': l >= r, 'lt': l < r, 'le': l <= r}.get(p[1:])))
                    continue
                w = bits(x['ty'])
                m = (1 << w) - 1
                if op in ('zext', 'trunc'):
                    r = a[0] & m
                elif op == 'sext':
                    r = sg(a[0], bits(x['from'])) & m
                elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                    if a[1] == 0:
                        return None
                    if op[0] == 'u':
                        r = a[0] // a[1] if op == 'udiv' else a[0] % a[1]
                    else:
                        l, q = sg(a[0], w), sg(a[1], w)
                        d = abs(l) // abs(q) * (1 if (l < 0) == (q < 0) else -1)
                        r = (d if op == 'sdiv' else l - d * q) & m
                elif op in ('shl', 'lshr', 'ashr'):
                    if a[1] >= w:
                        return None
                    r = (a[0] << a[1]) & m if op == 'shl' else a[0] >> a[1] if op == 'lshr' else (sg(a[0], w) >> a[1]) & m
                else:
                    l, q = a
                    r = {'add': l + q, 'sub': l - q, 'mul': l * q, 'and': l & q, 'or': l | q, 'xor': l ^ q}[op] & m
                V[x['id']] = r
            elif op == 'alloca':
                V[x['id']] = ('p', ('a', x['id']), 0)
            elif op == 'getelementptr':
                p = val(x['ops'][0])
                off = x['off']
                for v, s, t in x.get('var', ()):
                    off += sg(val(v), bits(t)) * s
                V[x['id']] = ('p', p[1], p[2] + off)
            elif op == 'store':
                mem[val(x['ops'][1])[1:]] = val(x['ops'][0])
            elif op == 'load':
                p = val(x['ops'][0])[1:]
                V[x['id']] = mem[p] if p in mem else initial(p, x)
            elif op == 'call':
                if x['callee'][0] != 'g':
                    raise No('call')
                c = x['callee'][1]
                if c.startswith(('llvm.dbg', 'llvm.lifetime')):
                    continue
                a = [val(o) for o in x['ops']]
                a = tuple(('to', mem.get(k[1:])) if isinstance(k, tuple) and isinstance(k[1], tuple) else k for k in a)
                trace.append((c, a))
                V[x['id']] = ('p', ('call', c, len(trace)), 0) if x.get('ty') == 'ptr' else 0
            elif op == 'br':
                s = x['succ']
                nxt = s[0] if len(s) == 1 or val(x['ops'][0]) & 1 else s[1]
            elif op == 'ret':
                r = val(x['ops'][0]) if x['ops'] else None
                out = {k: v for k, v in mem.items() if not isinstance(k[0], tuple)}
                return out, trace, r
            elif op == 'unreachable':
                return None
            else:
                raise No(op)
        prev, b = b, nxt


def initial(p, x):
    if p[0] == 'value' and p[1] == 0:
        return 65
    if p[0] == 'stream':
        return ('p', ('vtable', p[1]), 0) if x.get('ty') == 'ptr' else 0
    if isinstance(p[0], tuple):
        return ('p', ('in', p[0], p[1]), 0) if x.get('ty') == 'ptr' else 0
    raise No('load')


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def run(rep, P, repo):
    """rep obligations and violations for all pairs"""
    pairs = {}
    for F in P.fns.values():
        if F.decl:
            continue
        m = re.match(r'(?:.* )?W<(.*)>::(got|ref)_(\w+)\(', F.dem)
        if m:
            pairs.setdefault((m.group(1), m.group(3)), {})[m.group(2)] = F
    if not pairs:
        raise Anchor('no wrapper operator was found')
    n = 0
    for (t, name), d in sorted(pairs.items()):
        if len(d) != 2:
            raise Anchor('%s of %s' % (name, t))
        g, r = d['got'], d['ref']
        rep.count('operator_pairs')
        text = '%s of %s' % (name.replace('__', ': ').replace('_', ' '), t)
        how = None
        try:
            ok = shape(g) == shape(r)
            how = 'the same code'
            if not ok:
                a, b = terms(g), terms(r)
                ok = a == b
                how = 'the same terms'
        except No as e:
            ok = False
            how = str(e)
        rep.ob('%s equals the built-in operator (all inputs)' % text, ok)
        if ok:
            rep.cov.setdefault('proved_by', {})
            rep.cov['proved_by'][how] = rep.cov['proved_by'].get(how, 0) + 1
            continue
        w = disagree(g, r, name)
        if w:
            loc = where(g, repo)
            rep.violation('C15:%s' % name.split('__')[0], '%s: %s differs from the built-in operator' % (loc, text),
                          'wrapper type: BNIntType<%s>\noperator: %s\nrule: the term computed through the wrapper equals the term of the built-in operator converted to the wrapped type\n%s\nsource: %s' % (t, name, w, loc))


def where(F, repo):
    """innermost source line of the wrapper used by the function"""
    for b in F.blocks:
        for x in b:
            l = x.get('loc')
            if l and l[0].startswith(repo):
                return '%s:%d' % (l[0].replace(repo, ''), l[1])
    return 'include/bignum/impl/bn_int_type_impl.h'


def disagree(g, r, name):
    stream = name.startswith('stream')
    if stream:
        sets = [(('p', 'stream', 0), ('p', 'value', 0))]
    else:
        w = bits(g.args[0]['ty'])
        m = (1 << w) - 1
        vs = sorted({0, 1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 31, 33, 100, m, m - 1, m >> 1, (m >> 1) + 1, m // 3, 0x55 & m, 1 << (w // 2), (1 << (w // 2)) - 1, 0xf1e2d3c4b5a69788 & m})
        wide = max(w, 32)
        sets = [(x, y, ('p', 'o', 0)) for x in vs for y in vs if not ('shift' in name and (x if 'same' in name or 'own' in name else y) >= (wide if w > 32 else min(wide, 31)))]
    for args in sets:
        try:
            a, b = fold(g, args), fold(r, args)
        except (No, KeyError, TypeError, IndexError):
            return None
        if b is None:
            continue
        if a != b:
            inp = 'inputs: stream and the value 65' if stream else 'inputs: left = %d, right = %d' % args[:2]
            return '%s\nwrapper: %s\nbuilt-in: %s' % (inp, show(a), show(b))
    return None


def show(v):
    if v is None:
        return 'no meaning'
    m, t, r = v
    return '; '.join(['slot %s = %s' % (k[1], v) for k, v in sorted(m.items(), key=repr)] + ['calls %s%s' % c for c in t] + ([] if r is None else ['returns %s' % (r,)]))
