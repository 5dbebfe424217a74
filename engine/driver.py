"""Runs analysis tasks in parallel processes and writes the evidence."""
import os, sys, time, json, pickle, signal, select, traceback

NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def pmap(fn, tasks, limit=120, deadline=None, stop=None):
    """results of fn(*task), in order; None when a task fails or runs out of
    time.  stop(result) true: the tasks not started yet are dropped."""
    n = len(tasks)
    res = [None] * n
    todo = list(range(n))
    todo.reverse()
    run = {}
    stopped = False
    while todo or run:
        now = time.time()
        if deadline is not None and now > deadline or stopped:
            todo = []
            if not run:
                break
        while todo and len(run) < NPROC:
            i = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, _alarm)
                    signal.setitimer(signal.ITIMER_REAL, limit)
                    try:
                        v = ('ok', fn(*tasks[i]))
                    except Timeout:
                        v = ('timeout', None)
                    except BaseException as e:
                        v = ('err', '%s\n%s' % (e, traceback.format_exc()))
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    try:
                        b = pickle.dumps(v)
                    except Exception as e:
                        b = pickle.dumps(('err', 'unpicklable result %r' % e))
                    with os.fdopen(w, 'wb') as f:
                        f.write(b)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            run[r] = (i, pid, now, [])
        if not run:
            break
        fds, _, _ = select.select(list(run), [], [], 0.5)
        now = time.time()
        for fd in list(run):
            i, pid, t0, buf = run[fd]
            done = False
            if fd in fds:
                b = os.read(fd, 1 << 20)
                if b:
                    buf.append(b)
                else:
                    done = True
            if not done and (now > t0 + limit + 20 or (deadline is not None and now > deadline + 5) or stopped):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                buf[:] = []
                done = True
            if done:
                os.close(fd)
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                del run[fd]
                try:
                    v = pickle.loads(b''.join(buf))
                except Exception:
                    v = ('killed', None)
                if v[0] == 'ok':
                    res[i] = v[1]
                    if stop and v[1] is not None and stop(v[1]):
                        stopped = True
                elif v[0] == 'err' and 'Anchor' in v[1]:
                    res[i] = ('ANCHOR', v[1])
                elif os.environ.get('VERIF_DEBUG'):
                    print('task', tasks[i], v, file=sys.stderr)
    return res


class Report:
    """what one check found"""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obl = 0
        self.done = 0
        self.open = []          # obligations that could not be discharged
        self.viol = []          # (key, text, details)
        self.cov = {}
        self.samples = []
        self.rules = []
        self.assume = []
        self.level = 'proof'
        self.notes = []
        self.trusted = []
        self.explanation = None
        self.suspect = {}

    def ob(self, text, ok, note=None):
        self.obl += 1
        if ok:
            self.done += 1
            if len(self.samples) < 12 and self.done % 7 == 1:
                self.samples.append(text)
        else:
            self.open.append(text + (': ' + note if note else ''))
        return ok

    def violation(self, key, text, details=''):
        if not any(v[0] == key for v in self.viol):
            self.viol.append((key, text, details))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n


def known_findings(here):
    p = os.path.join(here, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                # finding: property=<id> key=<key> <what fails>
                f = l.split(None, 3)
                out.append((f[1].split('=', 1)[1], f[2].split('=', 1)[1], f[3] if len(f) > 3 else ''))
    return out


def finish(rep, here):
    ev = os.path.join(here, 'evidence')
    os.makedirs(ev, exist_ok=True)
    known = known_findings(here)
    news, olds = [], []
    for v in rep.viol:
        k = [x for x in known if x[0] == rep.prop and x[1] == v[0]]
        (olds if k else news).append((v, k))
    cov = dict(rep.cov)
    cov['obligations'] = rep.obl
    cov['discharged'] = rep.done
    if rep.open:
        cov['undischarged'] = rep.open[:60]
    cov['samples'] = rep.samples[:12]
    cov['rules'] = rep.rules
    cov['checker_cmd'] = 'python3 check.py %s' % rep.prop
    cov['trusted_base'] = rep.trusted
    if rep.explanation:
        cov['explanation'] = rep.explanation
    if rep.notes:
        cov['notes'] = rep.notes
    J = {'property': rep.prop, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
         'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': rep.level, 'coverage': cov,
         'assumptions': rep.assume, 'wall_s': round(time.time() - rep.t0, 2), 'violations': len(news)}
    with open(os.path.join(ev, rep.prop + '.json'), 'w') as f:
        json.dump(J, f, indent=1)
    print('%s: %d obligations, %d discharged, %d open, %d violations, %.1f s' % (rep.prop, rep.obl, rep.done, len(rep.open), len(rep.viol), time.time() - rep.t0))
    for t in rep.open[:20]:
        print('  open: ' + t)
    for v, k in olds:
        print('KNOWN-FINDING: property=%s %s' % (rep.prop, k[0][2] or v[1]))
    for i, (v, k) in enumerate(news):
        p = os.path.join(ev, '%s-violation-%d.txt' % (rep.prop, i))
        with open(p, 'w') as f:
            f.write('%s\n%s\n%s\n' % (rep.prop, v[1], v[2]))
        print(v[1])
        if v[2]:
            print('\n'.join('    ' + l for l in v[2].splitlines()[:30]))
        print('VIOLATION property=%s replay=%s' % (rep.prop, p))
    sys.stdout.flush()
    return 1 if news else 0
