"""C10: every interleaving of the workers' requests, the manager's own steps and up to two faults, explored on the real parallel
manager and servers under a controlled scheduler in virtual time (model workers; C11 replays with real ones)."""
import os, threading
import slash
from .. import env, world, pworld
from ..core import h, HarnessError
from ..pworld import Sched, Stuck

PROPERTY = 'C10'
HANG_SECS = 850 if env.TIER == 'quick' else 7200
ASSUMPTIONS = ['workers follow the protocol of slash.parallel.worker (bound to it by C11, which runs the real one under the same scheduler)',
               'a worker sends one request at a time; requests are handled one at a time by the server',
               'a process told to die dies; hooks of the parent do not fail']

SRC = {
    'ok': 'def test_%d():\n    pass\n',
    'fail': 'def test_%d():\n    assert False\n',
    'err': 'def test_%d():\n    raise RuntimeError("error")\n',
    'skip': 'def test_%d():\n    slash.skip_test("why")\n',
    'fatal': 'def test_%d():\n    slash.add_error("bad").mark_fatal()\n',   # last: it ends the sequential run
}
KINDS = ['ok', 'fail', 'err', 'skip', 'fatal']

COMM, QUIET, CONNECT = 1, 3, 1      # configured timeouts, in (virtual) seconds
_cache = {}


def results():
    """what real results of each kind look like on the wire: taken from a real sequential run"""
    if 'results' not in _cache:
        d = world.fresh_dir('pr')
        world.write_tree(d, {'test_a.py': 'import slash\n' + ''.join(SRC[k] % i for i, k in enumerate(KINDS))})
        out = world.run_session(d, [d + '/test_a.py'])
        rs = {}
        for k, r in zip(KINDS, out.session.results.iter_test_results()):
            rs[k] = r.serialize()
        if len(rs) != len(KINDS) or [classify(r) for r in out.session.results.iter_test_results()] != KINDS:
            raise HarnessError('unexpected results %r' % list(out.session.results.iter_test_results()))
        import shutil
        shutil.rmtree(d)
        _cache['results'] = rs
    return _cache['results']


def classify(r):
    if r.is_interrupted():
        return 'interrupted' if not r.has_errors_or_failures() else 'interrupted+'
    if not r.is_started():
        return 'not run' if not r.has_errors_or_failures() else 'odd'
    if r.has_fatal_exception() or r.has_fatal_errors():
        return 'fatal'
    if r.is_error():
        return 'err'
    if r.is_failure():
        return 'fail'
    if r.is_skip():
        return 'skip'
    return 'ok' if r.is_success() else 'unfinished'


class Oracle(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.n = len(cfg['outcomes'])
        self.w = cfg['workers']
        self.connected, self.validated, self.dead, self.left = set(), set(), set(), set()
        self.holding, self.finished, self.notrun, self.interrupted = {}, {}, set(), set()
        self.unserved = set(range(self.n))
        self.served = set()
        self.stopped = self.failed = False
        self.bad = None

    def state(self):
        return (sorted(self.connected), sorted(self.validated), sorted(self.dead), sorted(self.left), sorted(self.holding.items()),
                sorted(self.finished), sorted(self.notrun), sorted(self.interrupted), self.stopped, self.failed)

    def may(self, i, who):
        f = self.cfg.get('forced', {})
        if i in f:
            return f[i] == who
        return i not in self.cfg.get('excluded', {}).get(who, ())

    def fail(self, msg):
        if self.bad is None:
            self.bad = msg

    def __call__(self, sched, who, name, args, value):
        fault = isinstance(value, Exception)
        if fault and who not in self.dead:
            return self.fail('the call %s(%r) of %s was answered by %s' % (name, args[:1], who, value))
        if name == 'connect':
            self.connected.add(who)
        elif name == 'validate_collection':
            want = who not in self.cfg.get('mismatch', ())
            if value is not want:
                self.fail('the collection of worker %s was %s' % (who, 'accepted' if value else 'refused'))
            if want:
                self.validated.add(who)
            else:
                self.failed = True
        elif name == 'get_test':
            self.get_test(sched, who, value)
        elif name == 'finished_test':
            i = self.holding.get(who)
            if i is None or who in self.dead:
                if value is None:
                    self.fail('a result of worker %s, which holds no test%s, was accepted' % (who, ' and was declared dead' if who in self.dead else ''))
            else:
                if value is not None:
                    self.fail('the result of worker %s for test %d was refused: %r' % (who, i, value))
                self.holding[who] = None
                self.finished[i] = who
                kind = self.cfg['outcomes'][i]
                if kind == 'fatal' or (self.cfg.get('x') and kind in ('fail', 'err')):
                    self.stop_marking()
        elif name == 'report_client_failure':
            w = args[0]
            if w in self.left:
                # it left properly before it could be reported
                return self.check(sched)
            self.dead.add(w)
            i = self.holding.get(w)
            if i is not None:
                self.interrupted.add(i)
            self.failed = True
            self.stop_marking()
        elif name == 'report_session_error':
            self.failed = True
        elif name == 'session_interrupted':
            self.stopped = self.failed = True
        elif name == 'disconnect':
            self.left.add(who)
            if len(args) > 1 and args[1]:
                self.stopped = self.failed = True
        self.check(sched)

    def signalled(self, sched, w, sig):
        quiet = sched.now - max(list(sched.heard.values()) + [sched.start])
        if sig == 9:
            if sched.now - sched.heard.get(w.id, sched.start) <= COMM:
                self.fail('worker %s was killed, %d s after it was last heard of' % (w.id, sched.now - sched.heard.get(w.id, sched.start)))
        elif not self.interrupted_run(sched) and quiet <= QUIET and not self.cfg.get('spawn_fails') and not self.cfg.get('spawn_hook_fails'):
            if len(self.connected) >= self.w or sched.now - sched.start <= CONNECT * self.w:
                self.fail('worker %s was told to end for no reason' % w.id)

    def interrupted_run(self, sched):
        return ('int',) in sched.trace

    def stop_marking(self):
        self.stopped = True
        self.notrun |= self.unserved
        self.unserved = set()

    def get_test(self, sched, who, value):
        if self.bad:
            return
        if who in self.dead or sched.workers[who].exited is not None:
            if isinstance(value, (list, tuple)):
                if who in self.dead or self.stopped:
                    return self.fail('worker %s was declared dead, or the run is stopping, and it was given test %r' % (who, value[1]))
            else:
                return
        if self.holding.get(who) is not None:
            if value != 'PROTOCOL_ERROR':
                self.fail('worker %s asked for a test while holding one, and got %r' % (who, value))
            return
        if self.stopped:
            want = ('NO_MORE_TESTS',)
        elif len(self.validated) < self.w:
            want = ('WAITING_FOR_CLIENTS',)
        else:
            can = [i for i in sorted(self.unserved) if self.may(i, who)]
            if not can:
                want = ('NO_MORE_TESTS',)
            else:
                if not isinstance(value, (list, tuple)):
                    return self.fail('worker %s asked for a test, could run %r, and got %r' % (who, can, value))
                i = value[1]
                if i not in can:
                    return self.fail('worker %s was given test %r, where only %r are left for it' % (who, i, can))
                self.unserved.discard(i)
                self.holding[who] = i
                return
        if value not in want:
            self.fail('worker %s asked for a test and got %r instead of %s (validated: %r, stopped: %s)' % (who, value, want[0], sorted(self.validated), self.stopped))

    def expected(self, final=False):
        out = {}
        for i in range(self.n):
            if i in self.finished:
                out[i] = self.cfg['outcomes'][i]
            elif i in self.interrupted:
                out[i] = 'interrupted'
            elif i in self.notrun:
                out[i] = 'not run'
            else:
                out[i] = None
        return out

    def recorded(self, sched):
        session = slash.ctx.context.session if slash.ctx.context.session is not None else sched.session
        sched.session = session
        tests = sched.server.instance.tests
        got = {}
        count = 0
        for i, t in enumerate(tests):
            try:
                r = session.results[t]
            except LookupError:
                got[i] = None
            else:
                got[i] = classify(r)
                count += 1
        return got, count, session

    def check(self, sched):
        if self.bad:
            return
        got, count, session = self.recorded(sched)
        want = self.expected()
        for i in range(self.n):
            if got[i] != want[i]:
                # a test never handed out may be marked as not run at any time once the run is stopping
                if want[i] is None and got[i] == 'not run' and self.stopped and i in self.unserved:
                    continue
                return self.fail('test %d is recorded as %r, expected %r' % (i, got[i], want[i]))
        if len(session.results) != count:
            self.fail('%d results recorded for %d tests' % (len(session.results), count))

    def final(self, sched, out):
        if self.bad:
            return
        cfg = self.cfg
        session = out.session
        tests = sched.server.instance.tests if sched.servers else []
        want = self.expected()
        for i, t in enumerate(tests):
            try:
                got = classify(session.results[t])
            except LookupError:
                got = None
            ok = (got == want[i]) or (want[i] is None and (got == 'not run' or (got == 'interrupted' and i not in self.unserved)))
            if not ok:
                return self.fail('test %d ends up recorded as %r, expected %r' % (i, got, want[i]))
        healthy = not sched.faults and not any(e[0] == 'signal' for e in sched.trace) and not self.failed and not cfg.get('spawn_fails') and not cfg.get('mismatch')
        servable = all(any(self.may(i, str(w + 1)) for w in range(self.w)) for i in range(self.n))
        if healthy and servable and not self.stopped and len(self.finished) != self.n:
            return self.fail('all workers were healthy, and only the tests %r were executed' % sorted(self.finished))
        good = (not cfg.get('spawn_fails') and not cfg.get('spawn_hook_fails') and not self.failed and len(self.finished) == self.n and all(k in ('ok', 'skip') for k in cfg['outcomes']))
        success = session.results.is_success(allow_skips=True)
        if cfg.get('spawn_fails') or cfg.get('spawn_hook_fails'):
            success = good      # told by the exit code alone
        if bool(success) != good or (out.exit_code == 0) != good:
            return self.fail('the run is %s with exit code %r, expected %s' % ('successful' if success else 'unsuccessful', out.exit_code, 'success' if good else 'no success'))
        for w in sched.workers.values():
            if w.exited is None:
                return self.fail('worker %s is still running after the run ended' % w.id)
        for s in sched.servers:
            if not s.closed:
                return self.fail('a server is still running after the run ended')


def execute(cfg, d, prefix, budget, visited=None):
    orc = Oracle(cfg)
    sched = Sched(prefix, cfg, budget, results=results(), limits=(COMM, QUIET, CONNECT), visited=visited)
    sched.observer = orc
    hooks = {}

    def tests_loaded(tests):
        workers = slash.ctx.context.session.parallel_manager.workers
        for i, w in cfg.get('forced', {}).items():
            workers[w].force_test(tests[i])
        for w, ids in cfg.get('excluded', {}).items():
            for i in ids:
                workers[w].exclude_test(i)
    if cfg.get('forced') or cfg.get('excluded'):
        hooks['tests_loaded'] = tests_loaded
    if cfg.get('spawn_hook_fails'):
        def before_worker_start(worker_config):
            if worker_config.get_worker_id() == cfg['spawn_hook_fails']:
                raise RuntimeError('refusing to start this worker')
        hooks['before_worker_start'] = before_worker_start
    argv = ['--parallel', str(cfg['workers']), d + '/test_a.py'] + (['-x'] if cfg.get('x') else [])
    sched.install()
    stuck = None
    try:
        out = world.run_session(d, argv, hooks=hooks,
                                config={'parallel.communication_timeout_secs': COMM, 'parallel.no_request_timeout': QUIET,
                                        'parallel.worker_connect_timeout': CONNECT})
    finally:
        sched.uninstall()
    sched.out = out
    if sched.stuck:
        orc.fail('the run does not terminate: %s' % sched.stuck)
    elif isinstance(out.raised, HarnessError):
        raise out.raised
    elif out.raised is not None and not (isinstance(out.raised, KeyboardInterrupt) and ('int',) in sched.trace):
        orc.fail('the run ended by %r' % (out.raised,))
    if sched.servers:
        orc.final(sched, out)
    pm = getattr(out.session, 'parallel_manager', None)
    if pm is not None:
        import shutil
        shutil.rmtree(pm.workers_error_dircetory, ignore_errors=True)
    sched.oracle = orc
    return sched


def tree(cfg):
    return {'test_a.py': 'import slash\n' + ''.join(SRC['ok'] % i for i in range(len(cfg['outcomes'])))}


def configs(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, budget, **kw):
        kw.setdefault('outcomes', ['ok'] * 2)
        kw.setdefault('workers', 2)
        kw['symmetric'] = not any(kw.get(k) for k in ('forced', 'excluded', 'mismatch', 'spawn_fails', 'spawn_hook_fails'))
        out.append((name, budget, kw))
    add('two', 1)
    add('one', 2, workers=1)
    add('two-x', 1, outcomes=['fail', 'ok'], x=True, faults=['die'])
    add('mismatch-1', 1, mismatch=['1'], faults=['die', 'stall'])
    add('forced', 1, forced={0: '2', 1: '1'}, faults=['die'])
    add('excluded', 1, excluded={'1': [0]}, faults=['die'])
    add('two-3', 0, outcomes=['ok', 'skip', 'fail'])
    add('two-x-3', 0, outcomes=['ok', 'err', 'ok'], x=True, eager=True)
    add('two-fatal-3', 0, outcomes=['fatal', 'ok', 'ok'], eager=True)
    add('session-error', 0, session_error=[1], eager=True)
    add('mismatch-all', 0, mismatch=['1', '2'])
    add('forced-3', 0, forced={0: '2', 2: '1'}, outcomes=['ok'] * 3, eager=True)
    add('forced-all', 0, forced={0: '2', 1: '2', 2: '2'}, outcomes=['ok'] * 3, eager=True)
    add('excluded-3', 0, excluded={'1': [0, 1]}, outcomes=['ok'] * 3, eager=True)
    add('mixed', 0, excluded={'1': [0], '2': [1]}, forced={2: '1', 3: '2'}, outcomes=['ok'] * 4, eager=True)
    add('forced+excluded', 0, excluded={'1': [0], '2': [0]}, forced={1: '1'}, eager=True)
    add('three', 0, workers=3, eager=True, outcomes=['ok', 'ok', 'ok'])
    add('spawn-fails', 0, spawn_fails='2')
    add('hook-fails', 0, spawn_hook_fails='2')
    if deep:
        add('three-4', 0, workers=3, outcomes=['ok'] * 4)
        add('three-fault', 1, workers=3)
        add('two-faults', 2)
        add('two-3-fault', 1, outcomes=['ok', 'fail', 'skip'])
        add('session-error-fault', 1, session_error=[1])
        add('two-x-fault', 1, outcomes=['ok', 'err', 'ok'], x=True)
        add('two-4', 2, outcomes=['ok', 'fail', 'skip', 'ok'])
        add('three-x', 1, workers=3, x=True, outcomes=['ok', 'fail', 'ok', 'ok'])
        add('three-2', 2, workers=3, outcomes=['ok', 'ok', 'ok'])
        add('forced-2', 2, forced={0: '2', 1: '1'})
        add('excluded-2', 2, excluded={'1': [0], '2': [1]})
        add('four', 0, workers=4, outcomes=['ok'] * 4)
    return out


def tasks(tier):
    for name, budget, cfg in configs(tier):
        if budget == 1:
            for f in cfg.get('faults', ('die', 'stall', 'int', 'late')):
                parts = 3 if f == 'stall' and name == 'two' else 1 if tier == 'quick' else 8
                for i in range(parts):
                    yield dict(name='%s/%s/%d' % (name, f, i), budget=1, cfg=dict(cfg, faults=[f]), part=(i, parts))
        else:
            yield dict(name=name, budget=budget, cfg=cfg)


def bound(tier):
    return '%d configurations of 1-4 workers x 2-4 tests, every interleaving, up to 2 faults (death, stall, interrupt) each' % len(configs(tier))


def cfg_of(task):
    cfg = dict(task['cfg'])
    if 'forced' in cfg:
        cfg['forced'] = {int(k): v for k, v in cfg['forced'].items()}
    return cfg


def run_task(task, st):
    cfg = cfg_of(task)
    d = world.fresh_dir('p')
    world.write_tree(d, tree(cfg))
    if 'prefix' in task:
        s = execute(cfg, d, [tuple(c) for c in task['prefix']], task['budget'])
        if s.oracle.bad:
            st.violation(s.oracle.bad, dict(trace=s.trace[-12:]))
        return

    def one(prefix, visited):
        s = execute(cfg, d, prefix, task['budget'], visited)
        st.execution((task['name'], s.oracle.state(), [x[:3] for x in s.trace]), sample=dict(config=task['name'], choices=s.choices[:40]))
        st.count('faulty', 1 if s.faults else 0)
        if s.oracle.bad:
            st.violation('%s: %s' % (task['name'], s.oracle.bad), dict(task=dict(task, prefix=s.choices), trace=[(t[:3] + t[4:5]) if t[0] == 'rpc' and t[2] == 'finished_test' else t for t in s.trace][:24]))
            return None
        return s
    pworld.explore(one, st, part=tuple(task.get('part', (0, 1))))
