"""Program model: functions, blocks, natural loops, demangled names."""
import json, functools, os


class Fn:
    __slots__ = ('name', 'dem', 'decl', 'nounwind', 'noreturn', 'file', 'line', 'ret', 'args', 'blocks', 'link', 'q', '_loops', '_succ', 'dname')


class Program:
    def __init__(self, path, repo=None):
        J = json.load(open(path))
        self.repo = repo or os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/'
        self.globals = J['globals']
        self.structs = J['structs']
        self.fns = {}
        for n, f in J['functions'].items():
            F = Fn()
            F.name, F.dem, F.decl = n, f['dem'], f['decl']
            F.nounwind, F.noreturn, F.link = f['nounwind'], f['noreturn'], f['link']
            F.file, F.line, F.ret, F.args, F.blocks = f.get('file', ''), f.get('line', 0), f['ret'], f['args'], f['blocks']
            F.dname = f.get('dname', '')
            F.q = qname(F.dem)
            F._loops = None
            F._succ = None
            self.fns[n] = F

    def in_repo(self, F):
        return F.file.startswith(self.repo)

    def find(self, base, contains=()):
        return [F for F in self.fns.values() if not F.decl and F.q.base == base and all(c in F.dem for c in contains)]


class QName:
    __slots__ = ('base', 'cls', 'meth', 'cargs', 'targs', 'params', 'const')

    def __repr__(self):
        return '%s|%s|%s' % (self.base, self.cargs, self.params)


def _matching(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return -1


@functools.lru_cache(None)
def qname(dem):
    """split a demangled name into namespace-qualified base name without
    template arguments, the class's template arguments and the parameters"""
    q = QName()
    s = dem
    if s.startswith('decltype'):
        k = _matching(s, s.index('('), '(', ')')
        s = s[k + 1:].lstrip()
    # tokens at depth 0
    out = []        # (component name, targs)
    i = 0
    cur = ''
    targs = ''
    params = ''
    n = len(s)
    while i < n:
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')) and not (i + 8 < n and (s[i + 8].isalnum() or s[i + 8] == '_')):
            j = i + 8
            rest = s[j:]
            op = None
            for cand in ('()', '[]', '<=>', '<<=', '>>=', '->*', '<<', '>>', '<=', '>=', '->', '==', '!=', '&&', '||', '++', '--', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<', '>', '+', '-', '*', '/', '%', '&', '|', '^', '~', '!', '=', ','):
                if rest.startswith(cand):
                    op = cand
                    break
            if op:
                cur += 'operator' + op
                i = j + len(op)
                continue
            # conversion / new / delete: up to '('
            k = s.find('(', j)
            cur += 'operator ' + s[j:k].strip()
            i = k
            continue
        ch = s[i]
        if ch == '<' and cur:
            k = _angle(s, i)
            targs = s[i + 1:k]
            i = k + 1
            continue
        if ch == '(':
            if s.startswith('(anonymous namespace)', i):
                cur += '(anon)'
                i += len('(anonymous namespace)')
                continue
            k = _matching(s, i, '(', ')')
            params = s[i + 1:k]
            if s[k + 1:k + 3] == '::' or s[k + 1:k + 9] == ' const::':
                # local entity inside a function
                out.append((cur, targs))
                cur, targs = '', ''
                i = s.index('::', k) + 2
                continue
            i = k + 1
            break
        if ch == '{':
            k = _matching(s, i, '{', '}')
            cur += s[i:k + 1]
            i = k + 1
            continue
        if ch == ':' and s[i:i + 2] == '::':
            out.append((cur, targs))
            cur, targs = '', ''
            i += 2
            continue
        if ch == '[':  # abi tag
            k = s.find(']', i)
            i = k + 1
            continue
        if ch == ' ':
            # return type ended
            if cur.startswith('operator') or not cur and not out:
                cur += ch
                i += 1
                continue
            out, cur, targs = [], '', ''
            i += 1
            continue
        cur += ch
        i += 1
    q.const = s[i:].strip().startswith('const')
    q.base = '::'.join([a for a, _ in out] + [cur]).lstrip('*& ')
    q.meth = cur
    q.cls = '::'.join(a for a, _ in out)
    q.cargs = out[-1][1] if out else ''
    q.targs = targs
    q.params = params
    return q


def _angle(s, i):
    d = 0
    while i < len(s):
        if s[i] == '<':
            d += 1
        elif s[i] == '>' and s[i - 1] != '-':
            d -= 1
            if d == 0:
                return i
        elif s[i] == '(':
            i = _matching(s, i, '(', ')')
        i += 1
    return len(s) - 1


def succs(F):
    if F._succ is None:
        r = []
        for b in F.blocks:
            t = b[-1]
            op = t['op']
            if op == 'br':
                r.append(list(t['succ']))
            elif op == 'switch':
                r.append([x[1] for x in t['cases']] + [t['default']])
            elif op == 'invoke':
                r.append([t['normal'], t['unwind']])
            else:
                r.append([])
        F._succ = r
    return F._succ


def loops(F):
    """header -> set of blocks (natural loops, merged per header)"""
    if F._loops is not None:
        return F._loops
    S = succs(F)
    n = len(F.blocks)
    preds = [[] for _ in range(n)]
    for b, ss in enumerate(S):
        for x in ss:
            preds[x].append(b)
    order, seen = [], set()
    stack = [(0, iter(S[0]))] if n else []
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(S[x])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    full = set(order)
    dom = {b: set(full) for b in order}
    if order:
        dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0:
                continue
            ps = [p for p in preds[b] if p in full]
            d = set.intersection(*[dom[p] for p in ps]) if ps else set()
            d = d | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    L = {}
    for b in order:
        for x in S[b]:
            if x in dom[b]:
                body = L.setdefault(x, {x})
                st = [b]
                while st:
                    y = st.pop()
                    if y not in body:
                        body.add(y)
                        st.extend(p for p in preds[y] if p in full)
    F._loops = L
    return L


def type_bits(t):
    if t and t[0] == 'i' and t[1:].isdigit():
        return int(t[1:])
    return None
