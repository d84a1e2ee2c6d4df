"""Task runner shared by all checks: runs tasks in forked workers, collects coverage and violations,
writes the evidence file, honours the known-findings file, prints the verdict."""
import gc, os, sys, json, time, hashlib, traceback, multiprocessing, signal

from . import env

CORES = min(8, os.cpu_count() or 1)
HANG_SECS = int(os.environ.get('MC_HANG_SECS', '240'))
EVDIR = os.environ.get('MC_EVIDENCE', os.path.join(env.VERIF, 'evidence'))
KNOWN = os.path.join(env.VERIF, 'known_findings.txt')


def h(obj):
    """Stable short hash of a plain (repr-able) object."""
    return hashlib.md5(repr(obj).encode('utf8', 'backslashreplace')).digest()[:8]


class Stats(object):
    """Coverage measured on this run."""
    def __init__(self):
        self.executions = 0          # complete executions of the real code compared with the oracle
        self.transitions = 0         # events / steps checked
        self.states = set()          # hashes of distinct canonical states
        self.outcomes = set()        # hashes of distinct complete observations
        self.samples = []
        self.violations = []         # dicts: {what, replay, key}
        self.notes = {}
        self.capped = False

    def state(self, obj):
        self.states.add(h(obj))
        self.transitions += 1

    def execution(self, observation, sample=None):
        self.executions += 1
        k = h(observation)
        if k not in self.outcomes:
            self.outcomes.add(k)
            if sample is not None and len(self.samples) < 3:
                self.samples.append(sample)

    def violation(self, what, replay, key=None):
        """`key` names the listed finding which this is, if it is one"""
        if key is not None and any(v['key'] == key for v in self.violations):
            return
        self.violations.append(dict(what=what, replay=replay, key=key))

    def new_violations(self):
        return [v for v in self.violations if v['key'] is None]

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def merge(self, o):
        self.executions += o.executions
        self.transitions += o.transitions
        self.states |= o.states
        self.outcomes |= o.outcomes
        if len(self.samples) < 4:
            self.samples.extend(o.samples[:4 - len(self.samples)])
        self.violations.extend(o.violations)
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.capped |= o.capped


class HarnessError(Exception):
    pass


_MOD = None

def _enter_worker():
    # own scratch area per process
    pid = os.getpid()
    d = os.path.join(env.SCRATCH, 'p%d' % pid)
    if not os.path.isdir(d):
        os.makedirs(d)
    env.PROC = d
    os.chdir(env.CWD)
    gc.disable()


def _run_task(task):
    _enter_worker()
    st = Stats()
    try:
        _MOD.run_task(task, st)
    except BaseException as e:
        return ('error', task, ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
    # drop heavy duplicates
    st.violations = st.new_violations()[:3] + [v for v in st.violations if v['key'] is not None]
    return ('ok', task, st)


def _worker_loop(conn, parent_conns):
    for c in parent_conns:
        c.close()
    # the code under test sends itself signals: outside of a session they must not kill the worker silently
    while True:
        try:
            task = conn.recv()
        except EOFError:
            os._exit(0)
        r = _run_task(task)
        try:
            conn.send(r)
        except Exception as e:
            conn.send(('error', task, 'cannot send the result: %r' % e))


class _Worker(object):
    def __init__(self, others):
        ctx = multiprocessing.get_context('fork')
        self.conn, child = ctx.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                _worker_loop(child, [self.conn] + [w.conn for w in others])
            finally:
                os._exit(3)
        child.close()
        self.task = None
        self.since = None
        self.done = 0

    def give(self, task):
        self.task, self.since = task, time.time()
        self.conn.send(task)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            _, status = os.waitpid(self.pid, 0)
        except ChildProcessError:
            status = None
        self.conn.close()
        return status


def _iter_results(tasks, serial=False, maxtasks=None):
    if serial:
        for t in tasks:
            yield _run_task(t)
        return
    from multiprocessing.connection import wait
    tasks = iter(tasks)
    workers = []
    exhausted = False
    try:
        while True:
            # hand out work
            for w in [w for w in workers if w.task is None]:
                if maxtasks and w.done >= maxtasks:
                    w.kill()
                    workers.remove(w)
                    continue
                if not exhausted:
                    try:
                        w.give(next(tasks))
                    except StopIteration:
                        exhausted = True
            while not exhausted and len(workers) < CORES:
                try:
                    t = next(tasks)
                except StopIteration:
                    exhausted = True
                    break
                w = _Worker(workers)
                workers.append(w)
                w.give(t)
            busy = [w for w in workers if w.task is not None]
            if not busy:
                return
            ready = wait([w.conn for w in busy], timeout=5)
            for w in busy:
                if w.conn in ready:
                    task = w.task
                    try:
                        r = w.conn.recv()
                        w.task = None
                        w.done += 1
                    except EOFError:
                        status = w.kill()
                        workers.remove(w)
                        r = ('died', task, status)
                    yield r
                elif time.time() - w.since > getattr(_MOD, 'HANG_SECS', HANG_SECS):
                    task = w.task
                    w.kill()
                    workers.remove(w)
                    yield ('hang', task, None)
    finally:
        for w in workers:
            w.kill()


def in_child(func, *args):
    """Runs func(*args) in a forked process and returns its (picklable) result."""
    ctx = multiprocessing.get_context('fork')
    a, b = ctx.Pipe()
    pid = os.fork()
    if pid == 0:
        try:
            _enter_worker()
            try:
                b.send(('ok', func(*args)))
            except BaseException as e:
                b.send(('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__))))
        finally:
            os._exit(0)
    b.close()
    try:
        r = a.recv()
    except EOFError:
        r = ('error', 'child died')
    os.waitpid(pid, 0)
    if r[0] == 'error':
        raise HarnessError(r[1])
    return r[1]


def _confirm(task):
    """Re-run one task in a fresh process; returns its violations."""
    for r in _iter_results([task]):
        if r[0] != 'ok':
            return [r[2] or r[0]]
        return r[2].new_violations()


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            # known: property=C01 key=<key> :: description
            if line.startswith('known:'):
                head, _, desc = line[len('known:'):].partition('::')
                d = dict(x.split('=', 1) for x in head.split())
                out.append((d['property'], d['key'], desc.strip()))
    return out


def main(mod, argv=None):
    global _MOD
    _MOD = mod
    argv = sys.argv[1:] if argv is None else argv
    pid = mod.PROPERTY
    tier = env.TIER
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    serial = '--serial' in argv
    if '--replay' in argv:
        spec = json.load(open(argv[argv.index('--replay') + 1]))
        _enter_worker()
        st = Stats()
        mod.run_task(spec['task'], st)
        for v in st.violations:
            print('REPLAYED', v['what'])
        print('violations on replay: %d' % len(st.violations))
        return 1 if st.violations else 0
    t0 = time.time()
    total = Stats()
    known = [(k, d) for p, k, d in load_known() if p == pid]
    known_hit = {}
    bad = []
    ntasks = 0
    deadline = float(os.environ.get('MC_DEADLINE', '0') or 0)
    for kind, task, st in _iter_results(mod.tasks(tier), serial=serial, maxtasks=getattr(mod, 'MAXTASKS', None)):
        ntasks += 1
        if kind == 'hang':
            # every task is small; nothing finishing for this long means the code under test does not terminate
            bad.append((None, dict(what='an execution did not terminate within %d s (task %r)' % (getattr(mod, 'HANG_SECS', HANG_SECS), task), replay=dict(task=task))))
            break
        if kind == 'died':
            bad.append((None, dict(what='the process running the code under test was ended (status %r, task %r)' % (st, task), replay=dict(task=task))))
            break
        if kind == 'error':
            if (env.REPO + '/slash/') in st:
                # the code under test raised where the driver, on a tree where the property holds, never sees one
                bad.append((task, dict(what='unexpected exception out of the code under test:\n' + st[-3000:],
                                       replay=dict(traceback=st))))
                break
            print('HARNESS ERROR in task %r\n%s' % (task, st))
            return 2
        total.merge(st)
        for v in st.violations:
            hit = [(k, d) for k, d in known if v.get('key') == k]
            if hit:
                known_hit.setdefault(hit[0][0], hit[0][1])
            else:
                bad.append((task, v))
        if bad and not os.environ.get('MC_ALL') and len(bad) >= 1:
            break
    wall = time.time() - t0
    violations = 0
    rc = 0
    if bad:
        os.makedirs(os.path.join(EVDIR, 'replay'), exist_ok=True)
        for i, (task, v) in enumerate(bad[:(200 if os.environ.get("MC_ALL") else 5)]):
            again = _confirm(task) if task is not None and not os.environ.get('MC_ALL') else None
            path = os.path.join(os.path.relpath(EVDIR, env.VERIF) if EVDIR.startswith(env.VERIF) else EVDIR, 'replay', '%s-%d.json' % (pid, i))
            json.dump(dict(property=pid, task=task, what=v['what'], replay=v['replay'],
                           reproduced=bool(again),
                           how='python mc/run.py %s --replay %s' % (pid, path)),
                      open(os.path.join(env.VERIF, path), 'w'), indent=1, default=repr)
            print('what: %s' % v['what'])
            print('replay detail: %s' % json.dumps(v['replay'], default=repr)[:3000])
            print('reproduced in a fresh process: %s' % bool(again))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            violations += 1
        rc = 1
    for k, d in known:
        if k in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, d))
    cov = dict(states=len(total.states), transitions=total.transitions,
               traces_validated_against_impl=total.executions,
               distinct_outcomes=len(total.outcomes), tasks=ntasks,
               bound=mod.bound(tier) if hasattr(mod, 'bound') else '',
               samples=total.samples[:4] or ['(none)'],
               exhaustive=(rc == 0 and not total.capped), counters=total.notes)
    ev = dict(property=pid, tier=tier, seed=env.SEED, level=getattr(mod, 'LEVEL', 'model_checking'), coverage=cov,
              wall_s=round(wall, 2), violations=violations, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    os.makedirs(EVDIR, exist_ok=True)
    json.dump(ev, open(os.path.join(EVDIR, '%s.json' % pid), 'w'), indent=1, default=repr)
    print('%s %s: executions=%d states=%d transitions=%d distinct outcomes=%d tasks=%d %s wall=%.1fs -> %s' % (
        pid, tier, total.executions, len(total.states), total.transitions, len(total.outcomes), ntasks,
        total.notes, wall, 'VIOLATION' if rc else 'ok'))
    if rc == 0:
        mins = getattr(mod, 'MINIMUMS', {})
        for name, least in mins.items():
            have = dict(executions=total.executions, states=len(total.states), outcomes=len(total.outcomes),
                        **total.notes).get(name, 0)
            if have < least:
                print('HARNESS ERROR: vacuous exploration: %s=%d < %d' % (name, have, least))
                return 2
    return rc
