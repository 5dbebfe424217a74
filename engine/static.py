"""C14, C16 and C17: properties of the program text and its constants."""
import os, re, subprocess
from ir import *
from ops import Anchor, SYSTEMS
from effects import Effects

CXX = ['/usr/bin/clang++-18', '-std=gnu++11']


def repo_dir():
    return os.environ.get('VERIF_REPO', '/repo').rstrip('/')


# ------------------------------------------------------------------ C14
STREAMS = {'_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', '_ZSt5wcout', '_ZSt5wcerr', '_ZSt5wclog'}


def dominators(F):
    S = succs(F)
    n = len(F.blocks)
    preds = [[] for _ in range(n)]
    for b, ss in enumerate(S):
        for t in ss:
            preds[t].append(b)
    reach, st = {0}, [0]
    while st:
        for t in S[st.pop()]:
            if t not in reach:
                reach.add(t)
                st.append(t)
    dom = {b: set(reach) for b in reach}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in sorted(reach):
            if b == 0:
                continue
            ps = [dom[p] for p in preds[b] if p in reach]
            d = (set.intersection(*ps) if ps else set()) | {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    return dom


def guarded(F, block, inst):
    """the write happens while a local static is initialised: dominated by a
    successful guard acquire and not after the release"""
    acq = None
    for bi, b in enumerate(F.blocks):
        for x in b:
            if x['op'] in ('call', 'invoke') and x['callee'][0] == 'g' and x['callee'][1] == '__cxa_guard_acquire':
                acq = acq or []
                acq.append((bi, x))
    if not acq:
        return False
    dom = dominators(F)
    S = succs(F)
    for bi, x in acq:
        t = F.blocks[bi][-1]
        if t['op'] != 'br' or len(t.get('succ', ())) != 2:
            continue
        # the successor that is only reached with the guard held
        for s in t['succ']:
            if s in dom.get(block, ()) and len([p for p in range(len(F.blocks)) if s in S[p]]) == 1:
                # no release on the way: the release block ends the region
                rel = [(j, i) for j, b in enumerate(F.blocks) for i, y in enumerate(b) if y['op'] in ('call', 'invoke') and y['callee'][0] == 'g' and y['callee'][1] == '__cxa_guard_release' and s in dom.get(j, ())]
                if not rel:
                    continue
                ok = True
                for j, i in rel:
                    if j == block:
                        k = [q for q, y in enumerate(F.blocks[block]) if y['id'] == inst]
                        ok &= bool(k) and k[0] < i
                    elif j in dom.get(block, ()):
                        ok = False
                if ok:
                    return True
    return False


def depends_on_arguments(F, inst):
    """does the value stored (or handed to the constructor) come from the
    arguments of this call?"""
    D, users = {}, {}
    for b in F.blocks:
        for x in b:
            D[x['id']] = x
            if x['op'] in ('store', 'call', 'invoke'):
                for o in x.get('ops', ()):
                    if o and o[0] == 'v':
                        users.setdefault(o[1], []).append(x)
            elif x['op'] == 'getelementptr' and x['ops'][0][0] == 'v':
                users.setdefault(x['ops'][0][1], []).append(x)
    seen, work = set(), [o[1] for o in D[inst].get('ops', ()) if o and o[0] == 'v']
    n = len(F.args)
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        if v < n:
            return True
        x = D.get(v)
        if x is None:
            continue
        for o in list(x.get('ops', ())) + [o for _, o in x.get('inc', ())] + [w[0] for w in x.get('var', ())]:
            if o and o[0] == 'v':
                work.append(o[1])
        if x['op'] in ('alloca', 'getelementptr'):
            # what is put into local storage
            for u in users.get(v, ()):
                if u['op'] == 'getelementptr':
                    work.append(u['id'])
                elif not (u['op'] == 'store' and u['ops'][0] == ['v', v]):
                    for o in u['ops']:
                        if o and o[0] == 'v':
                            work.append(o[1])
    return False


def c14(rep, P, tmp, here, extra=()):
    rep.level = 'proof'
    rep.rules.append('no function of the library writes, directly or through any callee, memory reachable from a variable with static or thread storage, '
                     'except while that variable is initialised; nor calls a C library function with hidden state')
    rep.trusted = ['clang 18 front end', 'table of declared functions without side effects (engine/effects.py)']
    total = 0
    for Q in (P,) + tuple(extra):
        E = Effects(Q)
        seen = 0
        for F in sorted(Q.fns.values(), key=lambda F: F.name):
            if F.decl:
                continue
            mine = Q.in_repo(F)
            if not mine and not any(F.name == c for c in ()):
                # library templates instantiated for our types: still looked at
                pass
            if F.name.startswith(('_GLOBAL__', '__cxx_global_var_init')) or '__cxx_global_var_init' in F.name:
                rep.count('static_initialisers')
                continue
            seen += mine
            S = E.sums[F.name]
            bad = []
            for (g, b, i), (loc, how) in sorted(S.glob.items(), key=repr):
                if g in STREAMS:
                    rep.count('standard_stream_writes')
                    continue
                if guarded(F, b, i):
                    rep.count('guarded_initialisations')
                    if depends_on_arguments(F, i):
                        bad.append((g, loc, how + ' with the arguments of the first call'))
                    continue
                bad.append((g, loc, how))
            if mine or bad:
                rep.ob('%s writes no variable that outlives the call' % F.q.base, not bad)
            if mine:
                rep.ob('%s calls only functions with known effects' % F.q.base, not S.unknown, ', '.join(sorted(S.unknown)[:3]))
                rep.cov.setdefault('functions', set()).add(F.name)
            for g, loc, how in bad:
                G = Q.globals.get(g, {})
                nm = G.get('dem', g)
                at = '%s:%d' % (loc[0].replace(Q.repo, ''), loc[1]) if loc else '%s:%d' % (F.file.replace(Q.repo, ''), F.line)
                if how.startswith('call of'):
                    text = '%s: %s: %s, which keeps hidden state' % (at, F.q.base, how)
                else:
                    text = '%s: %s: %s writes %s, a variable that outlives the call%s' % (at, F.q.base, how, nm, ' (per thread)' if G.get('tls') else '')
                rep.violation('C14:%s' % re.sub(r'\s+', '_', qname(nm).base or nm), text,
                              'function %s\nvariable %s declared at %s\nrule: %s' % (F.dem, nm, ':'.join(map(str, G.get('loc', ['?']))), rep.rules[0]))
        total += seen
        rep.count('functions_analysed', len(E.sums))
        for n, G in Q.globals.items():
            loc = G.get('loc')
            if loc and loc[0].startswith(Q.repo):
                rep.count('library_variables')
                if not G['const']:
                    rep.count('library_variables_not_constant')
    if not total:
        raise Anchor('no library function was found')


# ------------------------------------------------------------------ C16
RADIX = {'lowp': 1 << 8, 'medp': 1 << 16, 'highp': 1 << 32, 'base2': 2, 'base8': 8, 'base10': 10, 'base16': 16}


def values(P, name):
    G = P.globals.get(name)
    if G is None or 'init' not in G:
        raise Anchor('constant ' + name)
    m = re.match(r'\[(\d+) x i64\]', G['ty'])
    out = [0] * int(m.group(1))
    for e in G['init']:
        if e[1] == 'val':
            out[e[0] // 8] = int(e[2][1])
    return out


def compile_unit(rep, here, tmp, unit, json, passes='function(sroa)', O='-O1'):
    """(program, None) or (None, diagnostics)"""
    bc = os.path.join(tmp, unit + '.bc')
    cmd = CXX + ['-I%s/include' % repo_dir(), '-g', O, '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', os.path.join(here, 'wit', unit + '.cpp'), '-o', bc]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and 'is ambiguous' in r.stdout:     # g++ resolves it: see wit/shim.h
        r2 = subprocess.run(cmd + ['-include', os.path.join(here, 'wit/shim.h')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = r if r2.returncode else r2
    if r.returncode:
        return None, r.stdout
    subprocess.check_call([os.path.join(here, 'build/irdump'), os.path.join(tmp, json), passes, bc])
    return Program(os.path.join(tmp, json)), None


def define_line(repo, name, file='include/bignum/impl/bn_limits_impl.h'):
    try:
        for i, l in enumerate(open(os.path.join(repo, file)), 1):
            if name in l:
                return '%s:%d' % (file, i)
    except OSError:
        pass
    return file


def c16(rep, P, tmp, here):
    rep.level = 'proof'
    rep.trusted = ['clang 18 constant evaluation', 'the table of advertised radices (2, 8, 10, 16, 2^8, 2^16, 2^32)']
    rep.rules.append('published constants, evaluated by the compiler, equal the values derived from the radix')
    Q, err = compile_unit(rep, here, tmp, 'limits', 'limits.json')
    repo = repo_dir()
    if Q is None:
        l = [x for x in err.splitlines() if 'error:' in x]
        rep.ob('the published limits are constants of the advertised types', False)
        rep.violation('C16:constants', 'the published limits are not constants of the advertised types: %s' % (l[0] if l else '?').replace(repo + '/', ''), err[-3000:])
        return

    def chk(key, text, got, want, at):
        rep.count('constants')
        if not rep.ob('%s is %s' % (text, want), got == want):
            rep.violation('C16:' + key, '%s: %s is %s, must be %s' % (at, text, got, want), 'rule: %s' % rep.rules[0])
    for s, B in RADIX.items():
        v = values(Q, 'lim_bn_limits_' + s)
        n = 'bn_limits_' + s
        at = define_line(repo, n, 'include/bignum/bn_limits.h')
        dat = define_line(repo, 'bn_max_limit<bn_%s_single>' % s) if s.startswith('base') else at
        chk(n + '::SINGLE_BASE_MIN', n + '::SINGLE_BASE_MIN', v[0], 0, at)
        chk(n + '::SINGLE_BASE_MAX', n + '::SINGLE_BASE_MAX', v[1], B - 1, dat)
        chk(n + '::DOUBLE_BASE_MIN', n + '::DOUBLE_BASE_MIN', v[2], 0, at)
        chk(n + '::bn_min_limit', 'bn_min_limit of the digits of ' + n, v[8], 0, dat)
        chk(n + '::bn_max_limit', 'bn_max_limit of the digits of ' + n, v[9], B - 1, dat)
        chk(n + '::unsigned', 'unsignedness of the digit type of ' + n, v[5], 1, at)
        chk(n + '::digit_fits', 'whether the digit type of %s holds every digit' % n, int(v[4] >= B - 1), 1, at)
        if not s.startswith('base'):
            chk(n + '::DOUBLE_BASE_MAX', n + '::DOUBLE_BASE_MAX', v[3], B * B - 1, at)
        # sums: two digits and a carry; differences: 0 - max digit - borrow wraps above every digit
        chk(n + '::intermediate_unsigned', 'unsignedness of the intermediate type of ' + n, v[7], 1, at)
        chk(n + '::intermediate_sum', 'whether the intermediate type of %s holds two digits and a carry' % n, int(v[6] >= 2 * (B - 1) + 1), 1, at)
        chk(n + '::intermediate_borrow', 'whether a borrow in the intermediate type of %s exceeds every digit' % n, int(v[6] + 1 - B > B - 1), 1, at)
        m = values(Q, 'num_bignum_' + s)
        at = define_line(repo, 'bignum_' + s, 'include/bignum/bignum.h')
        for k, what in enumerate(('stored digit', 'bn_single', 'bn_double')):
            chk('bignum_%s::%s' % (s, what.replace(' ', '_')), 'whether the %s type of bignum_%s is the one of its limits' % (what, s), m[k], 1, at)
    for t, w in (('BN_UINT8', 8), ('BN_UINT16', 16), ('BN_UINT32', 32), ('BN_UINT64', 64)):
        v = values(Q, 'typ_' + t)
        at = define_line(repo, '_BN_DEFINE_LIMITS(%s)' % t)
        chk(t + '::min', 'bn_min_limit<%s>' % t, v[0], 0, at)
        chk(t + '::max', 'bn_max_limit<%s>' % t, v[1], (1 << w) - 1, at)
        chk(t + '::range', 'largest value of ' + t, v[2], (1 << w) - 1, define_line(repo, ' %s;' % t, 'include/bignum/bn_setup.h'))
    for b in (2, 8, 10, 16):
        for k, mx in (('single', b - 1), ('double', b * b - 1)):
            t = 'bn_base%d_%s' % (b, k)
            v = values(Q, 'typ_' + t)
            at = define_line(repo, 'bn_max_limit<%s>' % t)
            chk(t + '::min', 'bn_min_limit<%s>' % t, v[0], 0, at)
            chk(t + '::max', 'bn_max_limit<%s>' % t, v[1], mx, at)
            chk(t + '::fits', 'whether %s holds its largest value' % t, int(v[2] >= mx and v[3] == 1), 1, at)


# ------------------------------------------------------------------ C17
def nm(path, what):
    r = subprocess.run(['nm', '-P', path], stdout=subprocess.PIPE, text=True, check=True)
    out = {}
    for l in r.stdout.splitlines():
        f = l.split()
        if len(f) >= 2:
            out[f[0]] = f[1]
    return {n for n, k in out.items() if (k in 'UwvN') == (what == 'undefined')}


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, check=True)
    return dict(zip(names, r.stdout.splitlines()))


def c17(rep, P, tmp, here):
    rep.level = 'proof'
    rep.trusted = ['clang 18', 'binutils nm']
    rep.rules.append('every member of a specialisation declared `extern template`, and every function declared but not defined in a public header, is defined by an object of src/')
    repo = repo_dir()
    inc = os.path.join(repo, 'include')
    heads = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith('.h') and '/impl' not in d)
    if not heads:
        raise Anchor('no public header')
    unit = os.path.join(tmp, 'all.cpp')
    open(unit, 'w').write(''.join('#include "%s"\n' % h for h in heads))
    base = CXX + ['-I' + inc]
    r = subprocess.run(base + ['-E', '-P', unit], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise Anchor('the public headers do not compile together: ' + r.stderr[-500:])
    # the library's own text only: standard headers declare extern templates too
    r2 = subprocess.run(base + ['-E', unit], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, check=True)
    cur, text = '', []
    for l in r2.stdout.splitlines():
        m = re.match(r'# \d+ "(.*)"', l)
        if m:
            cur = m.group(1)
        elif cur.startswith(inc):
            text.append(l)
    text = ' '.join(text)
    decl = [re.sub(r'\s+', ' ', d).strip() for d in re.findall(r'extern\s+template\s+((?:class|struct)\s+[^;]*);', text)]
    if not decl:
        raise Anchor('no extern template declaration')
    gen = os.path.join(tmp, 'inst.cpp')
    open(gen, 'w').write('#include <iostream>\n' + ''.join('#include "%s"\n' % h for h in heads) + ''.join('template %s;\n' % d for d in dict.fromkeys(decl)))
    # sources the build lists
    srcs = sorted(os.path.join(repo, 'src', f) for f in os.listdir(os.path.join(repo, 'src')) if f.endswith(('.cpp', '.cc', '.cxx')))
    try:
        cm = open(os.path.join(repo, 'CMakeLists.txt')).read()
        listed = [s for s in srcs if os.path.basename(s) in cm or 'GLOB' in cm]
        if listed:
            srcs = listed
    except OSError:
        pass
    jobs = [(gen, os.path.join(tmp, 'inst.o'))] + [(s, os.path.join(tmp, os.path.basename(s) + '.o')) for s in srcs]
    ps = [(s, o, subprocess.Popen(base + ['-O0', '-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for s, o in jobs]
    for s, o, p in ps:
        out = p.communicate()[0]
        bad = p.returncode
        if bad:     # the library is built by g++, which accepts some overload resolutions clang calls ambiguous
            bad = subprocess.run(['g++'] + base[1:] + ['-O0', '-w', '-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        if bad:
            if s == gen:
                rep.ob('every declared specialisation can be instantiated', False)
                e = [x for x in out.splitlines() if 'error:' in x]
                rep.violation('C17:instantiation', 'a specialisation the headers declare cannot be instantiated: %s' % (e[0] if e else '?').replace(repo + '/', ''), out[-3000:])
                return
            raise Anchor('%s does not compile' % s)
    have = set()
    for s, o in jobs[1:]:
        have |= nm(o, 'defined')
    need = nm(jobs[0][1], 'defined')
    dm = demangle(sorted(need))
    classes = {re.sub(r'\s+', '', d.split(' ', 1)[1]).split('<')[0] for d in decl}
    members = [n for n in sorted(need) if any(qn(dm[n]).startswith(c + '::') for c in classes)]
    rep.cov['declared_specialisations'] = len(set(decl))
    rep.cov['library_sources'] = [os.path.basename(s) for s in srcs]
    missing = {}
    for n in members:
        rep.count('members_required')
        if not rep.ob('%s is defined in the library' % dm[n], n in have):
            q = qname(dm[n])
            missing.setdefault((q.cls, q.cargs), []).append(dm[n])
    for (c, a), ms in missing.items():
        d = [x for x in decl if x.split(' ', 1)[1].startswith(c)]
        rep.violation('C17:%s<%s>' % (c, re.sub(r'\s+', '', a)), '%s: %s<%s> is declared as compiled elsewhere, but the library does not define %s%s' % (
            header_of(repo, heads, c), c, a, ms[0], ' and %d other members' % (len(ms) - 1) if len(ms) > 1 else ''), 'missing:\n' + '\n'.join(ms))
    # no declaration left without a definition
    per = {}
    for n in members:
        q = qname(dm[n])
        per[(q.cls, q.cargs)] = per.get((q.cls, q.cargs), 0) + 1
    rep.cov['specialisations_with_members'] = len(per)
    # ordinary functions of the headers that a program needs from the library
    use = os.path.join(here, 'wit', 'link.cpp')
    o = os.path.join(tmp, 'link.o')
    r = subprocess.run(base + ['-O0', '-c', use, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Anchor('wit/link.cpp does not compile: ' + r.stdout[-800:])
    und = nm(o, 'undefined')
    dm2 = demangle(sorted(und))
    mine = [n for n in sorted(und) if not dm2[n].startswith(('std::', 'operator new', 'operator delete', '__', 'vtable for __cxx', 'typeinfo for std')) and not n.startswith(('_ZNS', '_ZSt', '_ZNKS', '__', '_Unwind', '_GLOBAL', 'mem', '_Z', ) if False else ('_ZSt', '__', '_Unwind', '_GLOBAL', 'mem', '_ZNS', '_ZNKS', '_ZTVN10', '_ZdlPv', '_Znwm', '_ZTIS', '_ZTVS'))]
    lib = {n for n in mine if re.search(r'\bbn_|BN|Bignum|bignum', dm2[n])}
    if not lib:
        raise Anchor('no library function is needed')
    for n in sorted(lib):
        rep.count('functions_required')
        if not rep.ob('%s is defined in the library' % dm2[n], n in have):
            rep.violation('C17:%s' % re.sub(r'\s+', '_', dm2[n]), 'a program that uses %s does not link: no library object defines it' % dm2[n], 'symbol %s' % n)


def qn(d):
    q = qname(d)
    return q.cls + '::' if q.cls else d


def header_of(repo, heads, c):
    for h in heads:
        for i, l in enumerate(open(os.path.join(repo, 'include', h)), 1):
            if re.search(r'BN_DECLARE_(CLASS|STRUCT)\(%s\b|extern\s+template\s+(class|struct)\s+%s\b' % (c, c), l):
                return 'include/%s:%d' % (h, i)
    return 'include'
