"""C22: the real Worker (its main and its liveness thread) under a controlled scheduler in virtual time: every interleaving over its
synchronisation points within a bound on preemptions and faults; and the real supervision loop of the parent with the real servers on a
discrete clock: every timing of signals, connections and disconnections."""
import contextlib, itertools, threading, types
import logbook
import slash, slash.ctx
from munch import Munch
from ..core import HarnessError, h
import slash.parallel.worker as worker_mod
import slash.parallel.parallel_manager as manager_mod
import slash.parallel.server as server_mod

PROPERTY = 'C22'
ASSUMPTIONS = ['switches between the threads of a worker happen where it waits, signals or calls the parent',
               'a call to the parent is answered or fails, and takes no time; a worker computes infinitely fast between its calls, apart from running tests']
COMM, QUIET = 60, 20


# -- the worker --------------------------------------------------------------------------------------------------------------------
class Abort(BaseException):
    pass


class Coop(object):
    """threads one of which runs at a time; which one, whenever they could switch, is chosen by a list of choices"""
    def __init__(self, prefix):
        self.prefix, self.choices, self.width = list(prefix), [], []
        self.now = 0
        self.threads = []
        self.current = None
        self.control = threading.Semaphore(0)
        self.preemptions = self.faults = 0
        self.max_preemptions = self.max_faults = 0
        self.dead = False
        self.events = []
        self.deadlock = False

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append(c)
        self.width.append(n)
        return c

    def spawn(self, target, name):
        t = Munch(name=name, sem=threading.Semaphore(0), cond=None, deadline=None, done=False, exc=None)

        def body():
            t.sem.acquire()
            try:
                if not self.dead:
                    target()
            except Abort:
                pass
            except BaseException as e:
                t.exc = e
            t.done = True
            self.control.release()
        t.thread = threading.Thread(target=body, daemon=True)
        self.threads.append(t)
        t.thread.start()
        return t

    def pause(self, cond=None, deadline=None):
        t = self.current
        t.cond, t.deadline = cond, deadline
        self.control.release()
        t.sem.acquire()
        if self.dead:
            raise Abort()
        t.cond = t.deadline = None

    def ready(self, t):
        if t.done:
            return False
        if t.cond is None and t.deadline is None:
            return True
        return bool(t.cond is not None and t.cond()) or (t.deadline is not None and t.deadline <= self.now)

    def run(self, limit=400):
        last = None
        for _ in range(limit):
            ready = [t for t in self.threads if self.ready(t)]
            if not ready:
                waits = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
                if self.threads[0].done or not waits:
                    break
                self.now = min(waits)
                continue
            if self.threads[0].done and self.over():
                break
            if last in ready:
                ready.remove(last)
                ready.insert(0, last)
                n = len(ready) if self.preemptions < self.max_preemptions else 1
            else:
                n = len(ready)
            c = self.choose(n)
            if last is ready[0] and c:
                self.preemptions += 1
            last = self.current = ready[c]
            last.sem.release()
            self.control.acquire()
        else:
            self.deadlock = True
        if not self.threads[0].done:
            self.deadlock = True

    def over(self):
        # let the liveness thread show whether it goes on after the worker finished
        self.extra = getattr(self, 'extra', 0) + 1
        return self.extra > 3

    def end(self):
        self.dead = True
        for t in self.threads:
            t.sem.release()
        for t in self.threads:
            t.thread.join(10)
            if t.thread.is_alive():
                raise HarnessError('thread %s does not end' % t.name)

    def fault(self, n):
        """one of n kinds of faults, or 0"""
        if self.faults >= self.max_faults:
            return 0
        c = self.choose(n + 1)
        self.faults += bool(c)
        return c


C = None


class FEvent(object):
    def __init__(self):
        self.flag = False

    def is_set(self):
        C.pause()
        return self.flag
    isSet = is_set

    def set(self):
        C.pause()
        self.flag = True

    def clear(self):
        C.pause()
        self.flag = False

    def wait(self, timeout=None):
        C.pause(lambda: self.flag, None if timeout is None else C.now + timeout)
        return self.flag


class FThread(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs, self.daemon, self.t = target, args, kwargs or {}, daemon, None
        FThread.made.append(self)

    def start(self):
        self.t = C.spawn(lambda: self.target(*self.args, **self.kwargs), 'K')
        C.pause()

    def join(self, timeout=None):
        C.pause(lambda: self.t.done, None if timeout is None else C.now + timeout)

    def is_alive(self):
        C.pause()
        return self.t is not None and not self.t.done

    def run(self):
        self.target(*self.args, **self.kwargs)


class FLock(object):
    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        C.pause(lambda: self.owner in (None, C.current) if blocking else True)
        if self.owner is not None:
            return False
        self.owner = C.current
        return True

    def release(self):
        self.owner = None
        C.pause()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *e):
        self.release()


class FRLock(FLock):
    def acquire(self, blocking=True, timeout=-1):
        C.pause(lambda: self.owner is None or self.owner is C.current)
        self.owner = C.current
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if not self.depth:
            self.owner = None
        C.pause()


class FProxy(object):
    def __init__(self, uri, *a, **kw):
        self.uri = uri

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)

        def call(*args):
            C.pause()
            f = C.fault(2)
            if f:
                C.events.append((C.now, C.current.name, name, 'fails'))
                if f == 1:
                    raise ConnectionRefusedError(111, 'Connection refused')
                import xmlrpc.client
                raise xmlrpc.client.ProtocolError(self.uri, 500, 'no', {})
            C.events.append((C.now, C.current.name, name, 'keepalive' if ':2' in self.uri else 'server'))
            if len(C.busy) or self.uri in C.wires and C.wires[self.uri] != C.current.name:
                C.events.append((C.now, C.current.name, 'shared wire', self.uri))
            C.wires[self.uri] = C.current.name
            reply = C.world.reply(name, args)
            C.pause()
            return reply
        return call


class WorkerWorld(object):
    def __init__(self, script):
        self.script = list(script)
        self.validate = True
        self.ran = []

    def reply(self, name, args):
        if name == 'validate_collection':
            if self.script and self.script[0] == 'bad':
                self.script.pop(0)
                return False
            return True
        if name == 'get_test':
            what = self.script.pop(0) if self.script else 'N'
            if what == 'W':
                return server_mod.WAITING_FOR_CLIENTS
            if what == 'P':
                return server_mod.PROTOCOL_ERROR
            if what == 'N':
                return server_mod.NO_MORE_TESTS
            self.what = what
            return [['f', 'a', {}], 0]
        if name == 'finished_test':
            return server_mod.PROTOCOL_ERROR if self.what == 'Tp' else None
        return None


class FakeResults(object):
    def __getitem__(self, test):
        return Munch(serialize=lambda: {'r': 1})


@contextlib.contextmanager
def patched(mod, **kw):
    old = {k: getattr(mod, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(mod, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


def run_worker(script, prefix, preemptions, faults):
    """one schedule of one script"""
    global C
    c = C = Coop(prefix)
    c.max_preemptions, c.max_faults = preemptions, faults
    c.world = WorkerWorld(script)
    c.busy, c.wires = (), {}
    FThread.made = []
    log = c.events

    def ev(*a):
        log.append((c.now, c.current.name) + a)

    def run_tests(tests):
        what = c.world.what
        ev('running')
        if what.startswith('T'):
            secs = dict(T=0, T5=5, T25=25, Tp=1).get(what, 0)
            c.pause(None, c.now + secs) if secs else c.pause()
        elif what == 'K':
            raise KeyboardInterrupt()
        elif what == 'E':
            raise ValueError('internal')

    @contextlib.contextmanager
    def started():
        ev('session start')
        if script and script[0] == 'start':
            raise ValueError('session start fails')
        try:
            yield
        finally:
            ev('session end')

    def cleanup():
        ev('cleanup')
        c.pause(None, c.now + 3)      # which may take its time
    session = Munch(get_started_context=started, results=FakeResults(), mark_complete=lambda: ev('complete'), initiate_cleanup=cleanup, id='s_1', current_parallel_test_index=None,
                    logging=Munch(create_worker_symlink=lambda *a: None))
    fthreading = types.SimpleNamespace(Event=FEvent, Thread=FThread, Lock=FLock, RLock=FRLock, local=threading.local, current_thread=threading.current_thread)
    def fsleep(secs):
        ev('sleep')
        c.pause(None, c.now + secs)
    ftime = types.SimpleNamespace(sleep=fsleep, time=lambda: float(c.now), monotonic=lambda: float(c.now))
    written = []

    class Written(worker_mod.Worker):
        def write_to_error_file(self, msg):
            written.append(msg)
    out = Munch(raised=None)
    variation = Munch(dump_variation_dict=lambda: {})

    class Meta(object):
        pass
    class Var(object):
        def dump_variation_dict(self):
            return ('v',)
    meta = Meta()
    meta.file_path, meta.address_in_file, meta.variation = 'f', 'a', Var()
    test = Meta()
    test.__slash__ = meta
    c.world.reply_test = None

    class Index(WorkerWorld):
        pass
    real_reply = c.world.reply

    def reply(name, args):
        r = real_reply(name, args)
        if name == 'get_test' and isinstance(r, list):
            return [('f', 'a', ('v',)), 0]
        return r
    c.world.reply = reply
    ntests = 5

    def main():
        w = Written('1', 's_1')
        c.worker = w
        w.connect_to_server()
        ev('connected')
        try:
            w.start_execution(Munch(session=session), [test] * ntests)
        finally:
            c.finished_at = c.now
            ev('finished')
    import xmlrpc.client
    fx = types.SimpleNamespace(ServerProxy=FProxy, Error=xmlrpc.client.Error, ProtocolError=xmlrpc.client.ProtocolError, Fault=xmlrpc.client.Fault)
    nothing = types.SimpleNamespace(getpid=lambda: 7, getpgid=lambda x: 7, setsid=lambda: None, path=__import__('os').path)
    cfg = Munch(root=Munch(parallel=Munch(server_addr='h', server_port=1, keepalive_port=2, worker_error_file='e', workers_error_dir='d', communication_timeout_secs=COMM, no_request_timeout=QUIET)))
    with patched(worker_mod, threading=fthreading, time=ftime, xmlrpc_client=fx, run_tests=run_tests, register=lambda f: None, os=nothing, config=cfg), logbook.NullHandler().applicationbound():
        slash.ctx.push_context()
        slash.ctx.context.session = session
        try:
            c.spawn(main, 'M')
            c.run()
        finally:
            alive = [t.t is not None and not t.t.done for t in FThread.made]
            c.end()
            slash.ctx.pop_context()
    return c, alive, written


def judge(c, alive, script):
    bad = []
    main = c.threads[0]
    calls = [(t, who, name, how) for t, who, name, how in [e for e in c.events if len(e) == 4]]
    names = [e[2] for e in c.events]
    failed = [e for e in calls if e[3] == 'fails']
    main_failed = [e for e in failed if e[1] == 'M']
    if c.deadlock:
        return ['the worker does not end: %s' % (c.events[-4:],)]
    if any(n == 'shared wire' for n in names):
        bad.append('requests of both threads share a connection')
    if main.exc is not None and not main_failed and not set(script) & {'K', 'E', 'start'}:
        bad.append('the worker raised %r' % main.exc)
    if main.exc is None and set(script[:1]) & {'start'} and 'session start' in names:
        bad.append('the failure of the session start is lost')
    sent = [t for t, who, name, how in calls if name == 'keep_alive']
    connected = [t for t, who, name, how in calls if name == 'connect' and how != 'fails']
    started = 'session start' in names
    end = [e[0] for e in c.events if e[2] == 'finished'][0] if 'finished' in names else c.now
    if connected:
        # never silent for long as long as the worker is at work
        disc = [t for t, who, name, how in calls if name == 'disconnect']
        marks = [connected[0]] + [t for t in sent if t <= end] + [min(disc + [end])]
        gaps = [b - a for a, b in zip(marks, marks[1:])]
        # the clean-up of the session (3 seconds at most here) may come after the signalling
        if max(gaps) > min(COMM, QUIET) / 2.0:
            bad.append('no signal for %s seconds' % max(gaps))
        if started and not sent:
            bad.append('no signal at all')
        if main.exc is None or started and 'start' not in script:
            if any(alive):
                bad.append('the signalling goes on after the worker finished')
            late = [e for e in c.events[[e[2] for e in c.events].index('finished') + 1:] if e[2] == 'keep_alive'] if 'finished' in names else []
            if late:
                bad.append('signals after the worker finished')
    elif sent:
        bad.append('signals although not connected')
    order = [name for t, who, name, how in calls if who == 'M' and how != 'fails']
    if main.exc is None and connected and not main_failed:
        if order[-1] != 'disconnect' or order.count('disconnect') != 1:
            bad.append('the worker ends by %s' % order[-2:])
    if main_failed and main_failed[0][2] not in ('connect',) and main.exc is None:
        bad.append('the failure of %s is lost' % main_failed[0][2])
    if not all(t.daemon for t in FThread.made):
        bad.append('the process cannot end without the thread')
    return bad


ITEMS = ['W', 'T', 'T5', 'T25', 'Tp', 'P', 'K', 'E']


def scripts(tier):
    yield ('bad',)
    yield ('start',)
    yield ()
    n = 3 if tier == 'thorough' else 2
    for k in range(1, n + 1):
        for s in itertools.product(ITEMS, repeat=k):
            if any(x in ('P', 'K', 'E', 'Tp') for x in s[:-1]):
                continue
            yield s
    yield ('T25', 'W', 'T25')


def explore_worker(script, preemptions, faults, st):
    stack = [[]]
    seen = 0
    while stack:
        prefix = stack.pop()
        c, alive, written = run_worker(script, prefix, preemptions, faults)
        if c.choices[:len(prefix)] != list(prefix):
            raise HarnessError('diverged: %s instead of %s' % (c.choices, prefix))
        seen += 1
        bad = judge(c, alive, script)
        st.count('schedules')
        st.state((script, tuple(e[1:] for e in c.events)))
        st.execution((script, tuple(c.choices)), sample=dict(script=script, choices=c.choices, events=c.events))
        if bad:
            st.violation('worker given %s, schedule %s: %s; %s' % (script, c.choices, '; '.join(bad), c.events), dict(script=script, choices=c.choices, events=c.events, problems=bad))
            return
        for i in range(len(c.choices) - 1, len(prefix) - 1, -1):
            for v in range(1, c.width[i]):
                stack.append(c.choices[:i] + [v])


# -- the parent --------------------------------------------------------------------------------------------------------------------
TC, TQ, TK, CHECK = 3, 5, 2, 2      # timeouts: signals of a worker, any signal, connecting (each); between checks


class Killed(BaseException):
    pass


def run_parent(plan, st):
    """plan: for each worker (connect time or None, times of its signals, disconnect time or None)"""
    clock = [0.0]
    log = []
    horizon = 40
    n = len(plan)
    queue = []
    for i, (conn, signals, disc) in enumerate(plan):
        if conn is not None:
            queue.append((conn, 0, i, 'connect'))
        for s in signals:
            queue.append((s, 1, i, 'keep_alive'))
        if disc is not None:
            queue.append((disc, 2, i, 'disconnect'))
    queue.sort()
    conf = Munch(root=Munch(parallel=Munch(num_workers=n, worker_connect_timeout=TK, communication_timeout_secs=TC, no_request_timeout=TQ, server_addr='h', worker_error_file='e', server_port=0), tmux=Munch(enabled=False)))

    class FW(object):
        def __init__(self, args, i):
            self.i = int(i) - 1

        def get_worker_id(self):
            return str(self.i + 1)

        def get_excluded_tests(self):
            return []
        get_forced_tests = get_excluded_tests

        def start(self):
            log.append((clock[0], 'start', self.i))

        def kill(self):
            log.append((clock[0], 'kill', self.i))

        def handle_timeout(self):
            log.append((clock[0], 'timeout', self.i))

        def wait_to_finish(self):
            log.append((clock[0], 'wait', self.i))
    ftime = types.SimpleNamespace(time=lambda: clock[0], sleep=None)
    dead = set()

    def deliver():
        while queue and queue[0][0] <= clock[0]:
            t, _, i, what = queue.pop(0)
            if i in dead:
                continue
            if what == 'connect':
                server.connect(str(i + 1), 100 + i)
            elif what == 'keep_alive':
                keep.keep_alive(str(i + 1))
            elif str(i + 1) in server.connected_clients:
                server.disconnect(str(i + 1))

    def sleep(secs):
        # signals arrive whenever they do, with the clock at that time
        end = clock[0] + secs
        while queue and queue[0][0] <= end:
            clock[0] = max(clock[0], queue[0][0])
            deliver()
        clock[0] = end
        if clock[0] > horizon:
            raise Killed()
    ftime.sleep = sleep
    session = Munch(id='s_0', logging=Munch(create_worker_symlink=lambda *a: None), results=Munch(global_result=Munch(mark_interrupted=lambda: log.append((clock[0], 'interrupted')))))
    out = Munch(raised=None)

    class Direct(object):
        def __init__(self, port):
            self.target = {1: server, 2: keep}[port]

        def __getattr__(self, name):
            def call(*a):
                if name == 'report_client_failure':
                    log.append((clock[0], 'dead', int(a[0]) - 1))
                    dead.add(int(a[0]) - 1)
                elif name == 'report_session_error':
                    log.append((clock[0], 'error', str(a[0])[:20]))
                return getattr(self.target, name)(*a)
            return call
    nothread = types.SimpleNamespace(join=lambda: None)
    with patched(manager_mod, time=ftime, config=conf, ProcessWorkerConfiguration=FW, mkdtemp=lambda: 'nowhere', get_xmlrpc_proxy=lambda a, p: Direct(p)), \
            patched(server_mod, time=ftime, config=conf, hooks=types.SimpleNamespace(worker_connected=lambda **kw: None)), logbook.NullHandler().applicationbound():
        slash.ctx.push_context()
        slash.ctx.context.session = session
        try:
            m = manager_mod.ParallelManager(Munch())
            m.report_worker_error_logs = lambda: None
            session.parallel_manager = m
            server = m.server = server_mod.Server([])
            keep = m.keepalive_server = server_mod.KeepaliveServer()
            server.port, keep.port = 1, 2
            server.state = keep.state = server_mod.ServerStates.WAIT_FOR_CLIENTS
            m.server_thread = m.keepalive_server_thread = nothread
            deliver()
            try:
                m.start()
            except BaseException as e:
                out.raised = e
        finally:
            slash.ctx.pop_context()
    end = clock[0]
    return log, out.raised, end, server


def judge_parent(plan, log, raised, end):
    bad = []
    n = len(plan)
    deaths = {e[2]: e[0] for e in log if e[1] == 'dead'}
    errors = [e for e in log if e[1] == 'error']
    connects = [p[0] for p in plan]
    all_in = max(connects) if None not in connects else None

    def heard(i, t):
        """when it was last heard of before t: its signals, or else its connection"""
        conn, signals, disc = plan[i]
        before = [s for s in signals if s <= t and (i not in deaths or s <= deaths[i])]
        return before[-1] if before else conn
    if isinstance(raised, Killed):
        bad.append('the supervision does not end')
    for i, t in deaths.items():
        conn, signals, disc = plan[i]
        if t - heard(i, t) <= TC:
            bad.append('worker %d is declared dead at %s although heard of at %s' % (i, t, heard(i, t)))
        if disc is not None and disc <= t:
            bad.append('worker %d is declared dead at %s although it disconnected' % (i, t))
        if [e for e in log if e[1] == 'timeout' and e[2] == i] != [(t, 'timeout', i)]:
            bad.append('worker %d is declared dead but not ended' % i)
    for e in log:
        if e[1] == 'timeout' and e[2] not in deaths:
            bad.append('worker %d is ended without being reported' % e[2])
    # silent for longer than the timeout and the time between checks: has to be noticed, while the parent waits
    for i, (conn, signals, disc) in enumerate(plan):
        if conn is None or all_in is None:
            continue
        marks = sorted([conn] + [s for s in signals if disc is None or s <= disc])
        for a, b in zip(marks, marks[1:] + [disc if disc is not None else end + 1]):
            t = max(a, all_in) if a < all_in else a
            limit = max(a + TC, all_in) + 2 * CHECK
            if b > limit and end > limit and deaths.get(i, 1000) > limit:
                bad.append('worker %d is silent from %s to %s without being declared dead (%s)' % (i, a, b, deaths.get(i)))
                break
    anyone = sorted([0] + [s for i, (c, ss, d) in enumerate(plan) for s in ss if i not in deaths or s <= deaths[i]])
    if errors:
        t = errors[0][0]
        last = [s for s in anyone if s <= t][-1]
        if errors[0][2].startswith('Timeout'):
            if all_in is not None and all_in <= TK * n:
                bad.append('gave up at %s waiting for workers which all connected by %s' % (t, all_in))
        elif t - last <= TQ:
            bad.append('gave up at %s although a signal came at %s' % (t, last))
        if {e[2] for e in log if e[1] == 'kill'} != set(range(n)):
            bad.append('gave up without killing all workers')
        if not isinstance(raised, slash.exceptions.ParallelTimeout):
            bad.append('gave up but raised %r' % (raised,))
    elif raised is not None and not isinstance(raised, Killed):
        bad.append('raised %r' % (raised,))
    if all_in is None and not errors:
        bad.append('workers which never connected go unnoticed')
    if {e[2] for e in log if e[1] == 'wait'} != set(range(n)):
        bad.append('workers are not waited for')
    if not errors and not isinstance(raised, Killed):
        # ends only once nobody is connected
        for i, (conn, signals, disc) in enumerate(plan):
            if i not in deaths and (disc is None or disc > end):
                bad.append('ended at %s with worker %d connected' % (end, i))
    return bad


def plans1(tier):
    """one worker: connects at 0..3 or never, any set of signal times, disconnects at any time after or never"""
    top = 13 if tier == 'thorough' else 11
    for conn in (0, 1, 2, 3, None):
        if conn is None:
            yield ((None, (), None),)
            continue
        times = [t + 0.5 for t in range(conn, top)]
        for k in range(2 ** len(times)):
            sig = tuple(t for j, t in enumerate(times) if k >> j & 1)
            last = sig[-1] if sig else conn
            for disc in [None] + [d for d in (last + 0.2, last + 2.2, last + 3.2, last + 7.2)]:
                yield ((conn, sig, disc),)


def plans2(tier):
    """two workers on a coarser clock"""
    top = 5 if tier == 'thorough' else 4

    def one(conns):
        for conn in conns:
            if conn is None:
                yield (None, (), None)
                continue
            times = [conn + 0.5 + 1.6 * j for j in range(top)]
            for k in range(2 ** len(times)):
                sig = tuple(t for j, t in enumerate(times) if k >> j & 1)
                last = sig[-1] if sig else conn
                for disc in (None, last + 0.2, last + 3.3):
                    yield (conn, sig, disc)
    for a, b in itertools.product(one((0, 1, None)), one((0, 2.5, 5))):
        # no worker is through before all have connected: the parent starts none of them before
        connects = [p[0] for p in (a, b)]
        if None in connects and [p for p in (a, b) if p[2] is not None]:
            continue
        if None not in connects and [p for p in (a, b) if p[2] is not None and p[2] < max(connects)]:
            continue
        yield a, b


NW, NP = 40, 24


def bound(tier):
    return 'worker: all schedules with up to %d preemptions and %d failing calls over scripts of up to %d replies; parent: all signal times of one worker on a clock of %d steps, of two on %d, with connections and disconnections' % (
        3 if tier == 'thorough' else 2, 2 if tier == 'thorough' else 1, 3 if tier == 'thorough' else 2, 13 if tier == 'thorough' else 11, 5 if tier == 'thorough' else 4)


def tasks(tier):
    for k in range(NW):
        yield ['worker', tier, k]
    for k in range(NP):
        yield ['parent', tier, k]


def run_task(task, st):
    fam, tier, k = task
    if fam == 'worker':
        for n, s in enumerate(scripts(tier)):
            if n % NW == k:
                for p, f in ([(2, 0), (1, 1)] if tier == 'quick' else [(3, 0), (2, 1), (1, 2)]):
                    explore_worker(s, p, f, st)
                    if st.violations:
                        return
    else:
        for n, plan in enumerate(itertools.chain(plans1(tier), plans2(tier))):
            if n % NP == k:
                log, raised, end, server = run_parent(plan, st)
                bad = judge_parent(plan, log, raised, end)
                st.state(plan)
                st.count('timings')
                st.execution(plan, sample=dict(plan=plan, log=log))
                if bad:
                    st.violation('workers (connect, signals, disconnect) %s: %s; %s' % (plan, '; '.join(bad), log), dict(plan=plan, log=log, problems=bad))
                    return
