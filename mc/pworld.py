"""Parallel runs under a controlled scheduler.  The parent is the real `slash run --parallel` (real manager, real servers, real
xmlrpc marshalling) whose only blocking points - sleeping, remote calls, waiting for a process - are handed to a scheduler, in
virtual time.  The workers are model workers (generators below) or real worker processes (see zygotes)."""
import os, sys, time, signal, itertools, threading, subprocess, collections
import xmlrpc.client, xmlrpc.server
from . import env, world
from .core import HarnessError, h

REAL_SLEEP, REAL_TIME = time.sleep, time.time
REAL_POPEN = subprocess.Popen
REAL_SERVER, REAL_PROXY = xmlrpc.server.SimpleXMLRPCServer, xmlrpc.client.ServerProxy
SCHED = None
MAX_STEPS = 600


class Stuck(BaseException):
    """the run under test does not end within the bound"""


class FakeServer(xmlrpc.server.SimpleXMLRPCDispatcher):
    def __init__(self, addr, *a, **kw):
        xmlrpc.server.SimpleXMLRPCDispatcher.__init__(self, allow_none=kw.get('allow_none', False))
        self.sched = SCHED
        with self.sched.lock:
            self.sched.ports += 1
            self.server_address = ('localhost', addr[1] or 40000 + self.sched.ports)
        self.instance = None
        self.turn = threading.Semaphore(0)
        self.idle = threading.Semaphore(0)
        self.parked = False
        self.closed = False
        self.first = True
        self.request = self.response = None
        self.sched.servers.append(self)

    def handle_request(self):
        self._park()
        self.turn.acquire()
        if self.sched.over:
            raise SystemExit
        self.parked = False
        self.response = self._marshaled_dispatch(self.request)

    def _park(self):
        self.parked = True
        if not self.first:
            self.idle.release()
        self.first = False

    def server_close(self):
        self.closed = True
        self.idle.release()

    # called by the main thread
    def deliver(self, data):
        self.request = data
        self.turn.release()
        if not self.idle.acquire(timeout=60):
            raise HarnessError('the server did not come back from %r' % data[:300])
        return self.response


class FakeProxy(object):
    def __init__(self, uri, *a, **kw):
        self.port = int(uri.rsplit(':', 1)[1].strip('/'))
        self.allow_none = kw.get('allow_none', False)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*args):
            data = xmlrpc.client.dumps(args, name, allow_none=self.allow_none).encode('utf-8', 'xmlcharrefreplace')
            return SCHED.main_rpc(self.port, name, args, data)
        return call


def unmarshal(response):
    (value,), _ = xmlrpc.client.loads(response)
    return value


class FakePopen(object):
    def __init__(self, argv, *a, **kw):
        self.argv = list(argv)
        self.worker = SCHED.spawn(self.argv)
        self.pid = self.worker.pid

    @property
    def returncode(self):
        return self.worker.exited

    def poll(self):
        return SCHED.poll(self.worker)

    def wait(self, timeout=None):
        return SCHED.main_wait(self.worker)

    def send_signal(self, sig):
        SCHED.signal(self.worker, sig)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


class ModelWorker(object):
    """one worker as the protocol knows it; .gen yields (method, args) and is sent the reply"""
    def __init__(self, sched, wid, plan):
        self.sched, self.id, self.plan = sched, wid, plan
        self.pid = 50000 + int(wid)
        self.exited = None
        self.pending = None       # (method, args) on its way to the parent
        self.alive = True         # goes on after its pending call is answered
        self.ka = False           # liveness thread running
        self.stalled = False
        self.pos = 'new'
        self.holding = None
        self.waiting = False
        self.gen = self.run()
        self.advance(None)

    def advance(self, reply):
        try:
            self.pending = self.gen.send(reply)
        except StopIteration:
            self.pending = None
            self.exit(0)

    def exit(self, code):
        self.alive = False
        self.ka = False
        self.exited = code

    def key(self):
        p = self.pending
        return (self.id, self.pos, p and (p[0], repr(p[1][1:] if p[0] in ('report_session_error', 'validate_collection') else ())[:60]),
                self.alive, self.ka, self.stalled, self.exited, self.holding, self.waiting)

    def run(self):
        me, plan = self.id, self.plan
        self.pos = 'connecting'
        yield ('connect', (me, self.pid))
        self.ka = True
        self.pos = 'collected'
        collection = sorted(tuple(x) for x in self.sched.collection())
        if me in plan.get('mismatch', ()):
            collection = collection[:-1]
        ok = yield ('validate_collection', (me, collection))
        if not ok:
            self.ka = False
            self.pos = 'rejected'
            yield ('disconnect', (me, True))
            return
        while True:
            self.pos = 'idle'
            entry = yield ('get_test', (me,))
            self.waiting = False
            if entry == 'WAITING_FOR_CLIENTS':
                self.waiting = True
                continue
            if entry in ('PROTOCOL_ERROR', 'NO_MORE_TESTS'):
                break
            self.holding = index = entry[1]
            self.pos = 'running'
            if (me, index) in plan.get('session_error', ()) or index in plan.get('session_error', ()):
                yield ('report_session_error', ('session error of %s' % me,))
                self.pos = 'running2'
            ret = yield ('finished_test', (me, self.sched.result_dict(index)))
            self.holding = None
            if ret == 'PROTOCOL_ERROR':
                break
        self.ka = False
        self.pos = 'leaving'
        yield ('disconnect', (me,))


def rename(x, names):
    if isinstance(x, str):
        return names.get(x, x)
    if isinstance(x, (list, tuple)):
        out = [rename(v, names) for v in x]
        try:
            # anything which was sorted by worker stays sorted
            if len(out) > 1 and [v for v in x] == sorted(x, key=repr):
                out.sort(key=repr)
        except TypeError:
            pass
        return out
    return x


class Sched(object):
    """Drives one run.  `prefix` are the choices to take first, afterwards the first enabled one is taken; every choice point is
    reported to `seen(state key, enabled, depth)`."""

    def __init__(self, prefix, plan, budget, worker_cls=ModelWorker, results=None, limits=(1, 3, 1), visited=None):
        self.visited, self.known = (set() if visited is None else visited), False
        self.limits = limits
        self.prefix, self.plan, self.budget = list(prefix), plan, budget
        self.worker_cls = worker_cls
        self.results = results
        self.servers = []
        self.workers = {}
        self.trace = []            # ('rpc', client, method, args, reply or Fault, time) | fault events
        self.choices = []
        self.points = []           # (key, enabled) per choice point
        self.now = 1000.0
        self.over = False
        self.main = threading.current_thread()
        self.faults = 0
        self.stuck = None
        self.steps = 0
        self.lock = threading.Lock()
        self.ports = 0
        self.session = None
        self.zygotes = None
        self.observer = None
        self.heard = {}            # when something last came over the liveness channel
        self.start = self.now

    # -- the library stand-ins
    def install(self):
        global SCHED
        SCHED = self
        time.sleep, time.time = self.sleep, self.time
        subprocess.Popen = FakePopen
        xmlrpc.server.SimpleXMLRPCServer = FakeServer
        xmlrpc.client.ServerProxy = FakeProxy

    def uninstall(self):
        global SCHED
        self.over = True
        for s in self.servers:
            if not s.closed:
                s.turn.release()
        time.sleep, time.time = REAL_SLEEP, REAL_TIME
        subprocess.Popen = REAL_POPEN
        xmlrpc.server.SimpleXMLRPCServer, xmlrpc.client.ServerProxy = REAL_SERVER, REAL_PROXY
        SCHED = None

    def time(self):
        return self.now

    def collection(self):
        return self.server.instance.collection

    def result_dict(self, index):
        return self.results[self.plan['outcomes'][index]]

    @property
    def server(self):
        return self._serving('get_test')

    @property
    def ka_server(self):
        return self._serving('keep_alive')

    def _serving(self, method):
        for s in self.servers:
            if s.instance is not None and hasattr(s.instance, method):
                return s
        raise HarnessError('nobody serves %s' % method)

    def find(self, port):
        for s in self.servers:
            if s.server_address[1] == port:
                return s
        raise OSError('connection refused')

    # -- processes
    def spawn(self, argv):
        wid = argv[argv.index('--parallel-worker-id') + 1]
        port = int(argv[argv.index('--parallel-port') + 1])
        assert port == self.server.server_address[1]
        assert int(argv[argv.index('--keepalive-port') + 1]) == self.ka_server.server_address[1]
        assert wid not in self.workers
        fail = self.plan.get('spawn_fails')
        if fail == wid:
            raise OSError('no more processes')
        self.argv_of_last = argv
        w = self.workers[wid] = self.worker_cls(self, wid, self.plan)
        return w

    def poll(self, w):
        return w.exited

    def signal(self, w, sig):
        self.trace.append(('signal', w.id, int(sig)))
        if self.observer is not None:
            self.observer.signalled(self, w, int(sig))
        if w.exited is None:
            if int(sig) == signal.SIGTERM and isinstance(w, RealWorker):
                w.terminate()
            else:
                # what it already sent is still on its way
                w.exit(-int(sig))

    # -- blocking points of the main thread
    def sleep(self, secs):
        if threading.current_thread() is not self.main:
            self.now += secs
            return
        if len(self.servers) < 2 or not all(s.parked or s.closed for s in self.servers) or not self.workers:
            REAL_SLEEP(0.001)
            return
        self.block('sleep', secs)

    def main_rpc(self, port, name, args, data):
        if threading.current_thread() is not self.main:
            raise HarnessError('remote call out of %r' % threading.current_thread())
        server = self.find(port)
        if server.closed:
            raise OSError('connection refused')
        return self.block('rpc', (server, name, args, data))

    def main_wait(self, w):
        if w.exited is None:
            self.block('wait', w)
        return w.exited

    def block(self, kind, what):
        while True:
            self.steps += 1
            if self.steps > MAX_STEPS:
                self.stuck = 'no end after %d steps' % MAX_STEPS
                raise Stuck('no end after %d steps' % MAX_STEPS)
            if kind == 'wait' and what.exited is not None:
                return
            enabled = self.enabled(kind, what)
            if not enabled:
                self.stuck = 'the run waits for a process which waits for the run'
                raise Stuck('the run waits for a process which waits for the run: %r' % (self.status(),))
            choice = self.choose(kind, what, enabled)
            op, who = choice
            if op == 'w':
                self.step_worker(self.workers[who])
            elif op == 'die':
                self.faults += 1
                w = self.workers[who]
                self.trace.append(('die', who))
                w.exit(1)
                w.pending = None
            elif op == 'stall':
                self.faults += 1
                w = self.workers[who]
                self.trace.append(('stall', who))
                w.stalled = True
                w.ka = False
            elif op == 'int':
                self.faults += 1
                self.trace.append(('int',))
                raise KeyboardInterrupt('ctrl-c')
            elif op == 'main':
                if kind == 'sleep':
                    self.now += what
                    self.keepalives()
                    self.trace.append(('tick',))
                    return
                server, name, args, data = what
                return self.finish_rpc('main', server, name, args, data)
            else:
                raise HarnessError(choice)

    def keepalives(self):
        for wid in sorted(self.workers):
            w = self.workers[wid]
            if w.ka and w.exited is None:
                self.heard[wid] = self.now
                self.deliver(self.ka_server, 'keep_alive', (wid,))

    def deliver(self, server, name, args):
        return server.deliver(xmlrpc.client.dumps(args, name, allow_none=True).encode('utf-8', 'xmlcharrefreplace'))

    def finish_rpc(self, who, server, name, args, data):
        response = server.deliver(data)
        try:
            value = unmarshal(response)
        except xmlrpc.client.Fault as e:
            self.record(who, name, args, e)
            raise
        self.record(who, name, args, value)
        return value

    def record(self, who, name, args, value):
        self.trace.append(('rpc', who, name, args, value))
        for w in self.workers.values():
            if w.id != who:
                w.waiting = False if (name != 'get_test' or value != 'WAITING_FOR_CLIENTS') else w.waiting
        if self.observer is not None:
            self.observer(self, who, name, args, value)

    def step_worker(self, w):
        name, args = w.pending
        server = self.server
        if server.closed:
            w.pending = None
            if isinstance(w, RealWorker):
                w.answer(None)
            else:
                w.exit(1)
            return
        if isinstance(w, RealWorker):
            return self.step_real(w, name, args, server)
        try:
            data = xmlrpc.client.dumps(args, name, allow_none=True).encode('utf-8', 'xmlcharrefreplace')
            value = self.finish_rpc(w.id, server, name, args, data)
        except xmlrpc.client.Fault:
            w.pending = None
            if w.exited is None:
                w.exit(1)
            return
        w.pending = None
        if w.exited is None and not w.stalled:
            w.advance(value)
        elif w.stalled and name == 'disconnect' and w.exited is None:
            w.exit(0)

    def step_real(self, w, name, args, server):
        response = server.deliver(w.data)
        try:
            value = unmarshal(response)
        except xmlrpc.client.Fault as e:
            value = e
        w.log.append(('rpc', name, args, value))
        w.waiting = (name == 'get_test' and value == 'WAITING_FOR_CLIENTS')
        self.record(w.id, name, args, value)
        if w.exited is None and not w.stalled:
            w.answer(response)
        else:
            w.pending = None

    def enabled(self, kind, what):
        out = []
        for wid in sorted(self.workers):
            w = self.workers[wid]
            # what a dead worker sent is on its way until the end: never being delivered is not choosing it
            if w.pending is not None and not w.waiting and not (w.exited is not None and self.server.closed):
                out.append(('w', wid))
        faults = self.plan.get('faults', ('die', 'stall', 'int', 'late')) if self.budget else ()
        if kind == 'rpc' or (kind == 'sleep' and not (out and (self.all_fresh() or self.plan.get('eager'))) and ('late' in faults or not self.leaving())):
            out.append(('main', ''))
        if not out:
            for wid in sorted(self.workers):
                w = self.workers[wid]
                if w.pending is not None:
                    out.append(('w', wid))
        if self.faults < self.budget:
            for wid in sorted(self.workers):
                w = self.workers[wid]
                if w.exited is None and not w.stalled:
                    if 'die' in faults:
                        out.append(('die', wid))
                    if 'stall' in faults and w.ka:
                        out.append(('stall', wid))
            if kind == 'sleep' and 'int' in faults:
                out.append(('int', ''))
        return out

    def leaving(self):
        return any(w.pending is not None and w.exited is None and not w.stalled and not w.ka and w.id in self.heard for w in self.workers.values())

    def all_fresh(self):
        """everybody was just heard of, and will be on the next turn of the manager: that turn changes nothing"""
        return len(self.heard) == self.plan['workers'] == len(self.workers) and all(
            w.ka and w.exited is None and self.heard.get(w.id) == self.now for w in self.workers.values())

    def status(self):
        return [w.key() for _, w in sorted(self.workers.items())]

    def key(self, kind, what):
        s = self.server.instance
        # everything the server remembers, except for what never changes or differs between runs
        skip = ('tests', 'collection', '_sorted_collection', 'start_time', 'port', 'worker_session_ids', 'worker_to_pid')
        inner = sorted((k, self.freeze(v, k == 'finished_tests')) for k, v in vars(s).items() if k not in skip)
        self.last_inner = inner
        ka = self.ka_server.instance
        comm, quiet, connect = self.limits
        # clocks only matter up to the limits they are compared with
        if kind == 'sleep' or (kind == 'rpc' and what[1] != 'stop_serve'):
            times = (sorted((k, int(min(self.now - v, comm + 1))) for k, v in ka.clients_last_communication_time.items()),
                     int(min(self.now - ka.last_request_time, quiet + 1)),
                     int(min(self.now - s.start_time, connect * self.plan['workers'] + 1)) if 'CLIENTS' in repr(s.state) else 0)
        else:
            times = ()      # the manager is past looking at them
        key = (inner, times, self.status(), kind, what if kind == 'sleep' else what.id if kind == 'wait' else what[1:3], self.faults, self.observed())
        return h(self.canonical(key))

    def canonical(self, key):
        """workers nothing tells apart may be swapped"""
        if not self.plan.get('symmetric'):
            return repr(key)
        ids = sorted(self.workers)
        return min(repr(rename(key, dict(zip(ids, p)))) for p in itertools.permutations(ids))

    def observed(self):
        return self.observer.state() if self.observer is not None else ()

    def freeze(self, v, unordered=False):
        if unordered:
            return sorted(v)
        if isinstance(v, (set, frozenset)):
            return sorted(map(self.freeze, v), key=repr)
        if isinstance(v, dict):
            return sorted(((self.freeze(k), self.freeze(x)) for k, x in v.items()), key=repr)
        if isinstance(v, (list, tuple)):
            return [self.freeze(x) for x in v]
        if isinstance(v, (str, int, float, bool, type(None))):
            return v
        if hasattr(v, '__dict__') and type(v).__module__.startswith('slash.') and not hasattr(v, 'name'):
            return sorted((k, self.freeze(x)) for k, x in vars(v).items())
        return '%r' % (v,)

    def choose(self, kind, what, enabled):
        if self.plan.get('fixed_startup') and 'WAIT_FOR' in repr(self.server.instance.state):
            enabled = enabled[:1]
        i = len(self.choices)
        if i < len(self.prefix):
            c = tuple(self.prefix[i])
            if c not in enabled:
                raise HarnessError('replay diverged at %d: %r not in %r' % (i, c, enabled))
        else:
            c = enabled[0]
            if not self.known:
                key = self.key(kind, what)
                if key in self.visited:
                    self.known = True       # from here on this is an earlier execution
                else:
                    self.visited.add(key)
                    self.points.append((i, key, enabled))
        self.choices.append(c)
        return c


FAULTS = ('die', 'stall', 'int')


def explore(execute, st, part=(0, 1), limit=None):
    """Depth-first over the choices, every state expanded once.  execute(prefix, visited) -> Sched after the run (checked).
    With several parts, the faults are shared out by the state in which they happen."""
    visited = set()
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        s = execute(prefix, visited)
        n += 1
        if s is None:
            return n
        for i, key, enabled in s.points:
            st.state(key)
            for c in enabled:
                if i < len(s.choices) and c == s.choices[i]:
                    continue
                if c[0] in FAULTS and key[0] % part[1] != part[0]:
                    continue
                stack.append(tuple(s.choices[:i]) + (c,))
        if limit and n >= limit:
            st.capped = True
            break
    return n


# -- real workers ---------------------------------------------------------------------------------------------------------
class PipeRec(object):
    def __init__(self, send):
        self.send = send

    def ev(self, *a):
        self.send(('ev', a))

    def point(self, name, **kw):
        self.ev('point', name)


def _zygote_main(conn, ka_log):
    """a process waiting to become a worker"""
    import logbook
    lock = threading.Lock()
    main = threading.current_thread()

    def send(msg):
        with lock:
            conn.send(msg)
    d, argv, config = conn.recv()
    started = set()

    class Proxy(object):
        def __init__(self, uri, *a, **kw):
            self.port = int(uri.rsplit(':', 1)[1].strip('/'))
            self.allow_none = kw.get('allow_none', False)

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)

            def call(*args):
                data = xmlrpc.client.dumps(args, name, allow_none=self.allow_none).encode('utf-8', 'xmlcharrefreplace')
                if threading.current_thread() is not main:
                    if name not in started:
                        started.add(name)
                        send(('ka', name, args))
                    return None
                send(('rpc', self.port, name, data))
                reply = conn.recv()
                if reply is None:
                    raise ConnectionRefusedError('connection refused')
                return unmarshal(reply)
            return call
    xmlrpc.client.ServerProxy = Proxy

    def sleep(secs):
        if threading.current_thread() is not main:
            REAL_SLEEP(secs)
    time.sleep = sleep
    out = world.run_session(d, argv, rec=PipeRec(send), config=config)
    send(('exit', out.exit_code, repr(out.raised) if out.raised is not None else None))


class Zygotes(object):
    def __init__(self, n, d, config):
        import multiprocessing
        ctx = multiprocessing.get_context('fork')
        self.d, self.config = d, config
        self.free = []
        self.all = []
        for _ in range(n):
            here, there = ctx.Pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    here.close()
                    for c, p in self.all:
                        c.close()
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    signal.signal(signal.SIGINT, signal.default_int_handler)
                    _zygote_main(there, None)
                except BaseException:
                    import traceback
                    try:
                        there.send(('crash', traceback.format_exc()))
                    except Exception:
                        pass
                finally:
                    os._exit(0)
            there.close()
            self.all.append((here, pid))
            self.free.append((here, pid))

    def take(self):
        return self.free.pop(0)

    def close(self):
        for c, pid in self.all:
            c.close()
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


class RealWorker(object):
    """a real `slash run --parallel-worker-id` process, let go from request to request"""
    holding = None

    def __init__(self, sched, wid, plan):
        self.sched, self.id, self.plan = sched, wid, plan
        self.conn, self.pid = sched.zygotes.take()
        self.exited = None
        self.pending = None
        self.data = None
        self.ka = self.stalled = self.waiting = False
        self.log = []          # ('rpc', name, args, reply) and ('ev', ...) of this worker, in order
        argv = list(sched.argv_of_last)
        argv = argv[argv.index('run') + 1:]
        self.conn.send((sched.zygotes.d, argv, sched.zygotes.config))
        self.pump()

    def pump(self):
        """lets the process run until it asks for something or ends"""
        self.pending = None
        while True:
            try:
                if not self.conn.poll(60):
                    self.sched.stuck = 'worker %s neither asks for anything nor ends' % self.id
                    raise Stuck(self.sched.stuck)
                msg = self.conn.recv()
            except (EOFError, ConnectionError):
                self.reap()
                return
            if msg[0] == 'ka':
                self.ka = True
            elif msg[0] == 'ev':
                self.log.append(('ev',) + tuple(msg[1]))
                self.sched.trace.append(('ev', self.id) + tuple(msg[1]))
            elif msg[0] == 'rpc':
                port, name, data = msg[1:]
                if port != self.sched.server.server_address[1]:
                    raise HarnessError('request %s of the worker went to port %s' % (name, port))
                try:
                    args, _ = xmlrpc.client.loads(data)
                except Exception as e:
                    args = ('?', 'unreadable: %r' % e)
                self.pending, self.data = (name, args), data
                if name == 'disconnect':
                    self.ka = False
                return
            elif msg[0] == 'exit':
                self.log.append(msg)
                self.reap()
                return
            elif msg[0] == 'crash':
                raise HarnessError(msg[1])

    def reap(self):
        try:
            _, status = os.waitpid(self.pid, 0)
        except ChildProcessError:
            status = 0
        self.exited = os.waitstatus_to_exitcode(status)
        self.ka = False

    def exit(self, code):
        # told to die, by the run or as a fault
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.reap()
        self.exited = code

    def terminate(self):
        """SIGTERM: the process unwinds, possibly talking to the parent some more; what it waited for is lost"""
        try:
            os.kill(self.pid, signal.SIGTERM)
        except OSError:
            pass
        self.pump()

    def answer(self, reply):
        try:
            self.conn.send(reply)
        except OSError:
            pass
        self.pump()

    def key(self):
        return (self.id, self.exited, self.ka, self.waiting, self.pending and self.pending[0], [x[:2] if x[0] == 'rpc' else x for x in self.log])
