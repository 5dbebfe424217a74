"""One entry per property."""
import os, sys, time, subprocess
import arith, driver, fourier, fscen, misc, rounding, safe, static, wrapcmp
from ops import *

T0 = time.time()
BUDGET = {'quick': 600, 'thorough': 840}


def build(tmp, here):
    r = subprocess.run([os.path.join(here, 'mkir.sh'), tmp], cwd=here, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        raise Anchor('the sources do not compile to IR')
    return Program(os.path.join(tmp, 'prog.json'))


DOM = ['abstract domain: linear facts over digits, lengths, powers of the radix and numeric values (engine/lin.py), with its own exact LP (tools/lp.cpp)',
       'model of std::vector, std::complex, iostream and exceptions (engine/vec.py)', 'clang 18 front end, LLVM 18 SROA/mem2reg']


def opaque(rep, P, proved):
    """functions that only write their result: the same operands, the same result"""
    from effects import Effects
    E = Effects(P)
    for s in SYSTEMS:
        sy = Sys(P, s)
        names = {}
        for F in P.fns.values():
            if F.decl or not P.in_repo(F) or F.q.cls or len(F.args) != 3 or 'sret' not in F.args[0] or first_vec(F.dem) != sy.elem or F.q.base.startswith('operator'):
                continue
            S = E.sums[F.name]
            ok = not S.unknown and not E.writes_arg(F, 1) and not E.writes_arg(F, 2) and not E.writes_globals(F) and F.ret == 'void'
            names.setdefault(F.q.base, []).append(ok)
            rep.cov.setdefault('functions', set()).add(F.name)
        for b, oks in names.items():
            if rep.ob('%s: %s writes nothing but its result' % (s, b), all(oks)):
                proved[s].add('opaque:' + b)


def arith_prop(prop, what):
    def f(rep, P, tmp, here):
        rep.level = 'proof'
        rep.trusted = DOM
        dl = rep.t0 + BUDGET.get(os.environ.get('VERIF_TIER', 'quick'), 600)
        proved = {s: set() for s in SYSTEMS}
        if what:
            scs = [sc for s in SYSTEMS for sc in arith.scenarios(prop, s)]
            probe = lambda: arith.early(rep, prop, scs, dl, arith.refute_task, (), lambda t, r: '%s:%s' % (prop, t[1].op))
            proved, _ = arith.prove_kernels(rep, what, deadline=rep.t0 + 420, probe=probe)
            if rep.viol:
                return
        if prop == 'C09':
            fscen.decide(rep, prop, [f for s in SYSTEMS for f in misc.c09(s)], dl)
            if rep.viol:
                return
        if prop in ('C09', 'C10'):
            opaque(rep, P, proved)
        rep.cov['contracts_used'] = {s: sorted(v) for s, v in proved.items()}
        arith.decide(rep, prop, proved, dl)
    return f


CHECKS = {
    'C01': arith_prop('C01', ['sum']), 'C02': arith_prop('C02', ['sum']), 'C03': arith_prop('C03', ['div']),
    'C04': arith_prop('C04', ['mul']), 'C05': arith_prop('C05', ['cmp']), 'C06': arith_prop('C06', ['div', 'mul']),
    'C07': arith_prop('C07', []), 'C08': arith_prop('C08', []), 'C09': arith_prop('C09', ['div', 'mul']), 'C10': arith_prop('C10', ['div', 'mul']),
}


ALLK = frozenset(('bounds', 'div0', 'shift'))


def fs_prop(prop, table, what=None, kinds=(), only=None):
    """scenarios of single functions"""
    def f(rep, P, tmp, here):
        rep.level = 'proof'
        rep.trusted = DOM
        dl = rep.t0 + BUDGET.get(os.environ.get('VERIF_TIER', 'quick'), 600)
        proved = {s: set() for s in SYSTEMS}
        if what:
            proved, _ = arith.prove_kernels(rep, what, deadline=rep.t0 + 420)
        if prop == 'C11':
            opaque(rep, P, proved)
        fscen.decide(rep, prop, table(P, proved), dl, kinds, only=only)
    return f


def per_system(t):
    return lambda P, proved: [f for s in SYSTEMS for f in t(s)]


CHECKS.update({
    'C13': fs_prop('C13', per_system(misc.c13), kinds=('bounds',)),
    'C18': fs_prop('C18', per_system(misc.c18)),
    'C19': fs_prop('C19', per_system(misc.c19)),
    'C20': fs_prop('C20', per_system(misc.c20)),
    'C21': fs_prop('C21', per_system(misc.c21)),
    'C22': fs_prop('C22', per_system(misc.c22)),
    'C23': fs_prop('C23', lambda P, proved: misc.c23(P)),
    'C11': fs_prop('C11', lambda P, proved: [f for s in SYSTEMS for f in misc.c11(s, contracts_for(proved[s]))], ['div', 'mul']),
})


def p14(rep, P, tmp, here):
    static.c14(rep, P, tmp, here, [wrap_unit(tmp, here)[0]] if wrap_unit(tmp, here)[0] else [])


WRAP = {}


def wrap_unit(tmp, here):
    if 'p' not in WRAP:
        r = subprocess.run([os.path.join(here, 'mkwrap.sh'), tmp], cwd=here, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        WRAP['p'] = (None, r.stdout) if r.returncode else (Program(os.path.join(tmp, 'wrap.json')), None)
    return WRAP['p']


def p15(rep, P, tmp, here):
    rep.level = 'proof'
    rep.trusted = ['clang 18 front end and LLVM 18 -O2 simplifications (terms are compared after them)']
    rep.rules.append('for every wrapper operator the optimised code equals that of the built-in operator on the wrapped integers')
    Q, err = wrap_unit(tmp, here)
    if Q is None:
        l = [x for x in err.splitlines() if 'error:' in x]
        rep.ob('every operator is accepted in every operand order', False)
        rep.violation('C15:operators', 'an operator of the wrapper is missing or not usable: %s' % (l[0] if l else err[-200:]), err[-3000:])
        return
    wrapcmp.run(rep, Q, Q.repo)


CHECKS.update({'C14': p14, 'C15': p15, 'C16': static.c16, 'C17': static.c17})
for p in safe.OBL:
    CHECKS[p] = safe.run(p, ['div', 'mul'], BUDGET)
CHECKS['C26'] = fourier.c26
CHECKS['C27'] = rounding.c27
NOIR = {'C15', 'C16', 'C17'}


def run(prop, tmp, here):
    rep = driver.Report(prop)
    P = None if prop in NOIR else build(tmp, here)
    arith.P = P
    CHECKS[prop](rep, P, tmp, here)
    fns = rep.cov.get('functions')
    if fns is not None and P is not None:
        rep.cov['functions'] = sorted({P.fns[f].q.base for f in fns if f in P.fns and P.in_repo(P.fns[f])})
    if not rep.obl:
        raise Anchor('no obligation was generated')
    return driver.finish(rep, here)
