"""Side-effect summaries.

For every function of the program: which memory may it write?  Pointer values
are sets of roots (base, level): base is ('a', i) argument i, ('g', name) a
global, ('l', function, id) storage made here, ('x', n) an unknown object;
level counts how often memory was followed from the base.  Summaries grow to a
fixed point over the call graph, so nothing is missed through recursion."""
from ir import *

CAP = 3
FRESH = ('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '__cxa_allocate_exception', 'malloc', 'calloc')
# declared functions that write nothing the caller can see
PURE = ('cos', 'sin', 'floor', 'ceil', 'round', 'trunc', 'pow', 'log', 'log2', 'exp', 'sqrt', 'fabs', 'cosf', 'sinf', 'floorf', 'ldexp', 'fmod', 'lround', 'llround', 'rint', 'nearbyint',
        '__muldc3', '__mulsc3', '__divdc3', '__divsc3', 'strlen', 'memcmp', 'strcmp', '__gxx_personality_v0', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_throw', '__cxa_rethrow', '__cxa_free_exception',
        '_ZSt9terminatev', '__clang_call_terminate', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'abort', '__cxa_pure_virtual', '__cxa_get_exception_ptr', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit', 'free',
        '_ZSt18uncaught_exceptionv', '_ZSt19uncaught_exceptionsv', '__errno_location', 'nan', 'hypot', 'atan2', 'tan', 'sincos', 'exit')
STATEFUL = {'rand': 'the generator shared by the process', 'srand': 'the generator shared by the process', 'strtok': 'a hidden static pointer', 'setlocale': 'the locale of the process', 'setenv': 'the environment', 'putenv': 'the environment',
            'fesetround': 'the rounding mode', 'fesetenv': 'the floating-point environment', 'srandom': 'the generator shared by the process', 'random': 'the generator shared by the process', 'drand48': 'the generator shared by the process',
            'localtime': 'a static result', 'gmtime': 'a static result', 'asctime': 'a static result', 'strerror': 'a static result', 'signal': 'the signal handlers', '_ZSt15set_new_handlerPFvvE': 'the allocation handler',
            '_ZSt13set_terminatePFvvE': 'the termination handler', '_ZNSt6locale6globalERKS_': 'the global locale', 'lgamma': 'signgam', 'setjmp': 'jump state', 'longjmp': 'jump state', 'alarm': 'a process timer',
            'mbtowc': 'a hidden conversion state', 'getenv': 'the environment', 'tmpnam': 'a static buffer'}


def stream_fn(d):
    return d.startswith(('std::ostream', 'std::basic_ostream', 'std::ios', 'std::basic_ios')) or 'std::basic_ostream<' in d or 'std::istream' in d or 'std::basic_istream' in d


class Sum:
    __slots__ = ('writes', 'cont', 'ret', 'unknown', 'sites', 'glob')

    def __init__(self):
        self.writes = set()      # (base, level)
        self.cont = {}           # (base, level) -> roots stored there
        self.ret = set()
        self.unknown = set()     # declared functions without a model
        self.sites = {}          # (base, level) -> [(function, loc, how)]
        self.glob = {}           # (global, block, instruction) -> (loc, how): writes to globals made here


class Effects:
    def __init__(self, P):
        self.P = P
        self.sums = {n: Sum() for n, F in P.fns.items() if not F.decl}
        self.callers = {}
        self.run()

    def run(self):
        P = self.P
        work = [n for n in self.sums]
        inq = set(work)
        while work:
            n = work.pop()
            inq.discard(n)
            if self.step(P.fns[n]):
                for c in self.callers.get(n, ()):
                    if c not in inq:
                        inq.add(c)
                        work.append(c)

    def step(self, F):
        S = self.sums[F.name]
        size = (len(S.writes), sum(map(len, S.cont.values())), len(S.ret), len(S.unknown))
        V = {i: ({(('a', i), 0)} if a['ty'] == 'ptr' else set()) for i, a in enumerate(F.args)}
        local = {}     # contents
        for k, v in S.cont.items():
            local[k] = set(v)
        changed = True

        def roots(o):
            if not isinstance(o, list) or not o:
                return set()
            if o[0] == 'v':
                return V.get(o[1], set())
            if o[0] == 'g':
                return {(('g', o[1]), 0)}
            return set()

        def load(rs):
            out = set()
            for b, l in rs:
                if b[0] != 'l':
                    out.add((b, min(l + 1, CAP)))
                elif l > 0:
                    out.add((b, min(l + 1, CAP)))
                out |= local.get((b, l), set())
            return out

        def put(dst, src):
            ch = False
            for r in dst:
                t = local.setdefault(r, set())
                if not src <= t:
                    t |= src
                    ch = True
            return ch

        def wrote(rs, x, how, via=None, direct=True):
            for r in rs:
                if r[0][0] == 'g' and direct:
                    S.glob[(r[0][1], self.block, x['id'])] = (tuple(x.get('loc') or ()), how)
                if r[0][0] != 'l':
                    S.writes.add(r)
                    if via is not None:
                        for s in via[:3]:
                            L = S.sites.setdefault(r, [])
                            if s not in L and len(L) < 6:
                                L.append(s)
                    else:
                        L = S.sites.setdefault(r, [])
                        s = (F.name, tuple(x.get('loc') or ()), how)
                        if s not in L and len(L) < 6:
                            L.append(s)

        while changed:
            changed = False
            for bi, b in enumerate(F.blocks):
                self.block = bi
                for x in b:
                    op = x['op']
                    new = None
                    ops = x.get('ops', ())
                    if op == 'alloca':
                        new = {(('l', F.name, x['id']), 0)}
                    elif op == 'getelementptr':
                        new = roots(ops[0])
                    elif op == 'phi':
                        new = set()
                        for p, o in x['inc']:
                            new |= roots(o)
                    elif op == 'select':
                        new = roots(ops[1]) | roots(ops[2])
                    elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze', 'extractvalue', 'add', 'sub', 'and', 'or'):
                        new = set()
                        for o in ops:
                            new |= roots(o)
                    elif op == 'insertvalue':
                        new = roots(ops[0]) | roots(ops[1])
                    elif op == 'load':
                        if x['mty'] == 'ptr' or x['mty'].startswith('{') or x['mty'] == 'i64':
                            new = load(roots(ops[0]))
                    elif op == 'store':
                        d = roots(ops[1])
                        wrote(d, x, 'store')
                        changed |= put(d, roots(ops[0]))
                    elif op in ('atomicrmw', 'cmpxchg'):
                        wrote(roots(ops[0]), x, op)
                        changed |= put(roots(ops[0]), roots(ops[-1]))
                        new = load(roots(ops[0]))
                    elif op == 'ret':
                        if ops:
                            S.ret |= roots(ops[0])
                    elif op == 'va_arg':
                        S.unknown.add('va_arg')
                    elif op in ('call', 'invoke'):
                        new = set()
                        changed |= self.call(F, S, x, ops, roots, load, put, wrote, new, local)
                    if new is not None and new:
                        t = V.get(x['id'])
                        if t is None:
                            V[x['id']] = set(new)
                            changed = True
                        elif not new <= t:
                            V[x['id']] = t | new
                            changed = True
        for k, v in local.items():
            if k[0][0] != 'l':
                S.cont.setdefault(k, set()).update(r for r in v if r[0][0] != 'l' or True)
        return size != (len(S.writes), sum(map(len, S.cont.values())), len(S.ret), len(S.unknown))

    def call(self, F, S, x, ops, roots, load, put, wrote, new, local):
        c = x.get('callee')
        ch = False
        if not (isinstance(c, list) and c[0] == 'g'):
            # indirect call: may write everything it is given
            S.unknown.add('indirect call')
            for o in ops:
                r = roots(o)
                wrote(r | load(r) | load(load(r)), x, 'an indirect call')
                new |= r | load(r)
            return ch
        n = c[1]
        G = self.P.fns.get(n)
        std = G is not None and not self.P.in_repo(G) and stream_fn(G.dem)
        if G is not None and not G.decl and not std:
            self.callers.setdefault(n, set()).add(F.name)
            T = self.sums[n]

            def tr(r):
                (b, l) = r
                if b[0] == 'a':
                    if b[1] >= len(ops):
                        return set()
                    rs = roots(ops[b[1]])
                    for _ in range(l):
                        rs = load(rs)
                    return rs
                if b[0] == 'l':
                    # storage of the callee that outlives it: an object made at this call
                    return {(('l', F.name, ('call', x['id'])), l)}
                return {r}
            for w in list(T.writes):
                if w[0][0] == 'a' or w[0][0] == 'g':
                    t = tr(w)
                    wrote(t, x, 'passed to %s' % G.q.base, T.sites.get(w) or [(n, (), 'call')], w[0][0] == 'a')
            for k, v in list(T.cont.items()):
                d = tr(k)
                src = set()
                for r in v:
                    src |= tr(r)
                ch |= put(d, src)
            for r in T.ret:
                new |= tr(r)
            S.unknown |= T.unknown
            return ch
        if n.startswith('llvm.'):
            if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                d, s = roots(ops[0]), roots(ops[1])
                wrote(d, x, 'memory copy')
                ch |= put(d, load(s))
            elif n.startswith('llvm.memset'):
                wrote(roots(ops[0]), x, 'memory fill')
            elif x.get('ty') == 'ptr':
                for o in ops:
                    new |= roots(o)
            return ch
        if n in FRESH:
            new.add((('l', F.name, x['id']), 0))
            return ch
        if n in ('memcpy', 'memmove'):
            d, s = roots(ops[0]), roots(ops[1])
            wrote(d, x, 'memory copy')
            new |= d
            return put(d, load(s)) or ch
        if n == 'memset':
            wrote(roots(ops[0]), x, 'memory fill')
            new |= roots(ops[0])
            return ch
        if n in PURE or G is not None and G.noreturn:
            return ch
        if n in STATEFUL:
            wrote({(('g', n), 0)}, x, 'call of %s' % n)
            return ch
        d = G.dem if G is not None else n
        if stream_fn(d):
            # stream functions write the stream, and what an extraction stores
            for i, o in enumerate(ops):
                if i == 0 or 'istream' in d:
                    wrote(roots(o), x, 'stream output')
            if ops:
                new |= roots(ops[0])
            return ch
        if d.startswith(('std::exception::', 'std::logic_error::', 'std::runtime_error::', 'std::out_of_range::', 'std::bad_alloc::', 'std::length_error::', 'std::domain_error::', 'std::overflow_error::', 'std::underflow_error::', 'std::invalid_argument::', 'std::range_error::')):
            if ops:
                wrote(roots(ops[0]), x, 'exception object')
                new |= load(roots(ops[0]))
            return ch
        S.unknown.add(n)
        for o in ops:
            r = roots(o)
            wrote(r | load(r) | load(load(r)), x, 'call of %s' % d)
            new |= r | load(r)
        return ch

    # ---------------------------------------------------------- questions
    def writes_arg(self, F, i):
        """[(level, site)] possible writes through argument i"""
        S = self.sums[F.name]
        return [(r[1], S.sites.get(r, [])) for r in S.writes if r[0] == ('a', i)]

    def writes_globals(self, F):
        S = self.sums[F.name]
        return [(r[0][1], r[1], S.sites.get(r, [])) for r in S.writes if r[0][0] == 'g']
