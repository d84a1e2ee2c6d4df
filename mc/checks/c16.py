"""C16: every nesting of the handling / swallowing / expecting / allowing contexts (and threads, and re-raises) up to a depth,
around every kind of exception, executed for real inside a test, inside a session and outside of any session, against a
small-step model of what each context may do.  Plus all interleavings of two threads walking through such nestings."""
import itertools, sys, threading, types
import gossip
from .. import env, world
import slash
from slash import exception_handling as eh
from slash.exceptions import TerminatedException, ExpectedExceptionNotCaught
from slash.ctx import context

PROPERTY = 'C16'
ASSUMPTIONS = ['exceptions raised by callbacks of the exception hooks themselves are not part of the enumerated programs']
MINIMUMS = {'executions': 5000, 'processed': 2000, 'swallowed': 1000, 'expected': 1000}


class SubValue(ValueError):
    pass


class Custom(Exception):
    pass


class Slotted(Exception):
    """does not accept attributes the usual way"""
    def __setattr__(self, name, value):
        raise AttributeError(name)


class PlainBase(BaseException):
    pass


LEAVES = ['none', 'V', 'SV', 'KE', 'AE', 'skip', 'cskip', 'KI', 'TE', 'SE', 'nosw', 'fatal', 'slot', 'base']
CTX = ['H', 'Hn', 'Hs', 'Ht', 'Hl', 'Hk', 'Hsk', 'Hp', 'Hps', 'G', 'Rv', 'Rt', 'Re', 'Lv', 'Le', 'Ts', 'Tn', 'Tf', 'TH']
CTX_DEEP = ['H', 'Hs', 'Ht', 'Hk', 'Hp', 'G', 'Rv', 'Re', 'Lv', 'Ts', 'Tn', 'TH']
LEAVES_DEEP = ['none', 'V', 'AE', 'skip', 'KI', 'nosw']


def make_exc(kind):
    if kind == 'V':
        return ValueError('v')
    if kind == 'SV':
        return SubValue('sv')
    if kind == 'KE':
        return KeyError('k')
    if kind == 'AE':
        return AssertionError('a')
    if kind == 'skip':
        return slash.exceptions.SkipTest('s')
    if kind == 'cskip':
        return Custom('c')
    if kind == 'KI':
        return KeyboardInterrupt('i')
    if kind == 'TE':
        return TerminatedException('t')
    if kind == 'SE':
        return SystemExit(3)
    if kind == 'nosw':
        return eh.noswallow(ValueError('n'))
    if kind == 'fatal':
        return eh.mark_exception_fatal(ValueError('f'))
    if kind == 'slot':
        return Slotted('x')
    if kind == 'base':
        return PlainBase('b')


def category(exc, session):
    """how an exception is recorded"""
    if isinstance(exc, (AssertionError, ExpectedExceptionNotCaught)):
        return 'failure'
    if session and isinstance(exc, (slash.exceptions.SkipTest, Custom)):
        return 'skip'
    if isinstance(exc, (KeyboardInterrupt, TerminatedException)):
        return 'interruption'
    return 'error'


# ------------------------------------------------------------------------------------------ real interpreter
class Real(object):
    def __init__(self):
        self.log = []
        self.names = {}
        self.objs = []
        self.seen = None

    def name(self, e):
        if e is None:
            return None
        if id(e) not in self.names:
            self.names[id(e)] = 'ENC' if isinstance(e, ExpectedExceptionNotCaught) else 'X%d' % len(self.objs)
            self.objs.append(e)
        return self.names[id(e)]

    def add(self, *a):
        self.log.append(a)


CUR = [None]


def real_ctx(c):
    if c == 'H':
        return eh.handling_exceptions()
    if c == 'Hn':
        return eh.handling_exceptions(fake_traceback=False, context='some context')
    if c == 'Hs':
        return eh.handling_exceptions(swallow=True)
    if c == 'Ht':
        return eh.handling_exceptions(swallow_types=(ValueError,))
    if c == 'Hl':
        return eh.handling_exceptions(swallow_types=[KeyError, AssertionError])
    if c == 'Hk':
        return eh.handling_exceptions(swallow_skips=True)
    if c == 'Hsk':
        return eh.handling_exceptions(swallow=True, swallow_skips=True)
    if c == 'Hp':
        return eh.handling_exceptions(passthrough_types=(ValueError,))
    if c == 'Hps':
        return eh.handling_exceptions(passthrough_types=(SubValue, KeyError), swallow=True)
    if c == 'G':
        return eh.get_exception_swallowing_context()
    if c == 'Rv':
        return slash.assert_raises(ValueError)
    if c == 'Rt':
        return slash.assert_raises((KeyError, AssertionError), 'my message')
    if c == 'Re':
        return slash.assert_raises(Exception)
    if c == 'Lv':
        return slash.allowing_exceptions(ValueError)
    if c == 'Le':
        return slash.allowing_exceptions(Exception)


def real_run(chain, exc, r, depth=0):
    """exc: the exception object to raise at the innermost level"""
    if not chain:
        r.add('leaf')
        if exc is not None:
            raise exc
        return
    c, rest = chain[0], chain[1:]
    if c == 'Ts':
        try:
            real_run(rest, exc, r, depth + 1)
        except BaseException as e:      # pylint: disable=broad-except
            raise e
    elif c == 'Tf':
        try:
            real_run(rest, exc, r, depth + 1)
        finally:
            r.add('finally', depth)
    elif c == 'Tn':
        try:
            real_run(rest, exc, r, depth + 1)
        except BaseException as e:      # pylint: disable=broad-except
            new = KeyError('new')
            r.name(new)
            raise new from e
    elif c == 'TH':
        box = []

        def target():
            try:
                real_run(rest, exc, r, depth + 1)
            except BaseException as e:      # pylint: disable=broad-except
                box.append(e)
        t = threading.Thread(target=target)
        t.start()
        t.join()
        if box:
            raise box[0]
    else:
        handle = None
        try:
            with real_ctx(c) as handle:
                real_run(rest, exc, r, depth + 1)
            r.add('left', depth, c)
        finally:
            if c[0] in 'HRL':
                r.add('seen', depth, c, r.name(handle.exception))


# ------------------------------------------------------------------------------------------ model
class M(object):
    def __init__(self, where, debug):
        self.where = where
        self.debug = debug
        self.session = where != 'nosession'
        self.log = []
        self.processed = set()
        self.names = {}
        self.n = 0
        self.counts = dict(processed=0, swallowed=0, expected=0)

    def name(self, e):
        if e is None:
            return None
        if e not in self.names:
            self.names[e] = 'ENC' if e.cls is ExpectedExceptionNotCaught else 'X%d' % self.n
            self.n += 1
        return self.names[e]

    def process(self, e):
        if e in self.processed:
            return
        self.processed.add(e)
        self.counts['processed'] += 1
        nm = self.name(e)
        cat = category(e.cls.__new__(e.cls), self.session)
        if self.session:
            self.log.append((cat, nm) if cat not in ('skip',) else (cat, e.text))
        self.log.append(('before', nm))
        if self.debug and cat in ('error', 'failure') and e.cls is not SystemExit:
            self.log.append(('debugger', nm))
        self.log.append(('after', nm))


class ME(object):
    def __init__(self, kind, cls, text=None, noswallow=False):
        self.kind, self.cls, self.text, self.noswallow = kind, cls, text, noswallow


def isa(e, classes):
    return issubclass(e.cls, tuple(classes))


PASS = {'Hp': (ValueError,), 'Hps': (SubValue, KeyError)}
SWALLOW = {'Hs': (Exception,), 'Ht': (ValueError,), 'Hl': (KeyError, AssertionError), 'Hsk': (Exception,), 'Hps': (Exception,)}
CATCH = {'Rv': (ValueError,), 'Rt': (KeyError, AssertionError), 'Re': (Exception,), 'Lv': (ValueError,), 'Le': (Exception,)}


def model_run(chain, exc, m, ignored=(), depth=0):
    """returns the exception which leaves the program, or None"""
    if not chain:
        m.log.append(('leaf',))
        return exc
    c, rest = chain[0], chain[1:]
    if c == 'Ts':
        return model_run(rest, exc, m, ignored, depth + 1)
    if c == 'Tf':
        e = model_run(rest, exc, m, ignored, depth + 1)
        m.log.append(('finally', depth))
        return e
    if c == 'Tn':
        e = model_run(rest, exc, m, ignored, depth + 1)
        if e is None:
            return None
        new = ME('new', KeyError)
        m.name(new)
        return new
    if c == 'TH':
        return model_run(rest, exc, m, (), depth + 1)
    revealed = None
    if c in CATCH:
        e = model_run(rest, exc, m, ignored + CATCH[c], depth + 1)
        out = e
        if e is None:
            if c[0] == 'R':
                out = ME('enc', ExpectedExceptionNotCaught)
        elif isa(e, CATCH[c]):
            revealed, out = e, None
            m.counts['expected'] += 1
    else:
        e = model_run(rest, exc, m, ignored, depth + 1)
        out = e
        if e is not None:
            interruption = isa(e, (KeyboardInterrupt, TerminatedException))
            if c == 'G':
                if not interruption and not e.noswallow:
                    out = None
            elif isa(e, PASS.get(c, ()) + ignored):
                pass
            else:
                m.process(e)
                revealed = e
                skip = m.session and isa(e, (slash.exceptions.SkipTest, Custom))
                if skip:
                    out = None if c in ('Hk', 'Hsk') else e
                elif interruption:
                    pass
                elif isa(e, SWALLOW.get(c, ())):
                    out = None
            if out is None:
                m.counts['swallowed'] += 1
    if out is None:
        m.log.append(('left', depth, c))
    if c[0] in 'HRL':
        m.log.append(('seen', depth, c, m.name(revealed)))
    return out


# ------------------------------------------------------------------------------------------ one program
def programs(tier, part):
    if part == 'chain':
        for d in (0, 1, 2):
            for ch in itertools.product(CTX, repeat=d):
                for leaf in LEAVES:
                    yield [(ch, leaf)]
    elif isinstance(part, str) and part.startswith('chain3:'):
        first = part[7:]
        for ch in itertools.product(CTX if tier == 'thorough' else CTX_DEEP, CTX):
            for leaf in LEAVES if tier == 'thorough' else ('none', 'V', 'SV', 'KE', 'AE', 'skip', 'KI', 'SE', 'nosw'):
                yield [((first,) + ch, leaf)]
    elif isinstance(part, str) and part.startswith('chain4:'):
        first = tuple(part[7:].split(','))
        for ch in itertools.product(CTX_DEEP, repeat=4 - len(first)):
            for leaf in LEAVES_DEEP:
                yield [(first + ch, leaf)]
    elif isinstance(part, str) and part.startswith('chain5:'):
        first = tuple(part[7:].split(','))
        for ch in itertools.product(CTX_DEEP, repeat=5 - len(first)):
            for leaf in LEAVES_DEEP:
                yield [(first + ch, leaf)]
    elif isinstance(part, str) and part.startswith('again:'):
        # the same exception object is raised by two programs, one after the other
        first = part[6:]
        for d in (1, 2):
            for a in itertools.product(CTX if tier == 'thorough' else CTX_DEEP, repeat=d - 1):
                for b in ([(c,) for c in CTX] + ([p for p in itertools.product(('H', 'Hs', 'Rv', 'G', 'TH'), repeat=2)] if d == 1 else [])):
                    for leaf in ('V', 'AE', 'skip', 'KI', 'slot', 'nosw') if tier == 'thorough' else ('V', 'skip', 'slot'):
                        yield [((first,) + a, leaf), (b, 'same')]


HOOK_NAMES = ['exception_caught_before_debugger', 'exception_caught_after_debugger', 'error_added', 'interruption_added']


def hook_callbacks():
    def before():
        CUR[0].add('before', CUR[0].name(sys.exc_info()[1]))

    def after():
        CUR[0].add('after', CUR[0].name(sys.exc_info()[1]))

    def error_added(error, result):
        r = CUR[0]
        if r is None:
            return
        exc = sys.exc_info()[1]
        ok = result is current_result()
        r.add('failure' if error.is_failure() else 'error', r.name(exc), *([] if ok else ['of another result']))
        if error.exc_info is not None and error.exc_info[1] is not exc:
            r.add('error object shows another exception')
        if error.is_fatal() != eh.is_exception_fatal(exc):
            r.add('fatality of the error', error.is_fatal())

    def interruption_added(result, exception):
        r = CUR[0]
        r.add('interruption', r.name(sys.exc_info()[1]), *([] if result is current_result() else ['of another result']))

    def quiet(f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            if CUR[0] is not None:
                return f(*a, **k)
        return g
    return dict(exception_caught_before_debugger=quiet(before), exception_caught_after_debugger=quiet(after),
                error_added=error_added, interruption_added=_two(interruption_added))


def _two(f):
    def interruption_added(result, exception):
        if CUR[0] is not None:
            f(result, exception)
    return interruption_added


def current_result():
    if context.session is None:
        return None
    if context.test is not None:
        return context.session.results.get_result(context.test)
    return context.session.results.global_result


def run_program(prog, where, debug, st):
    r = Real()
    m = M(where, debug)
    CUR[0] = r
    res = current_result()
    if res is not None:
        before = (len(res.get_errors()), len(res.get_failures()), len(res.get_skips()))
    exc = mexc = None
    obs, want = [], []
    ignored0 = tuple(eh._ignored_state.ignored_exception_types)
    for chain, leaf in prog:
        if leaf != 'same':
            exc = make_exc(leaf)
            mexc = None if leaf == 'none' else ME(leaf, type(exc), text=str(exc), noswallow=leaf == 'nosw')
            r.name(exc)
            m.name(mexc)
        nskips = len(res.get_skips()) if res is not None else 0
        try:
            real_run(chain, exc, r)
        except BaseException as e:      # pylint: disable=broad-except
            r.add('escaped', r.name(e))
            if isinstance(e, ExpectedExceptionNotCaught) and 'my message' not in str(e) and 'not raised' not in str(e):
                r.add('unclear message', str(e))
        esc = model_run(chain, mexc, m)
        if esc is not None:
            m.log.append(('escaped', m.name(esc)))
        if res is not None:
            for x in res.get_skips()[nskips:]:
                r.add('skip', x)
    CUR[0] = None
    if tuple(eh._ignored_state.ignored_exception_types) != ignored0:
        r.add('expected types are left behind', repr(eh._ignored_state.ignored_exception_types))
        eh._ignored_state.ignored_exception_types = ignored0
    got = list(r.log)
    exp = list(m.log)
    # skips are read from the result after the fact: compare them separately
    gs, es = [x for x in got if x[0] == 'skip'], [x for x in exp if x[0] == 'skip']
    got, exp = [x for x in got if x[0] != 'skip'], [x for x in exp if x[0] != 'skip']
    if res is not None:
        delta = tuple(a - b for a, b in zip((len(res.get_errors()), len(res.get_failures()), len(res.get_skips())), before))
        edelta = tuple(sum(1 for x in m.log if x[0] == k) for k in ('error', 'failure', 'skip'))
        got.append(('recorded', delta))
        exp.append(('recorded', edelta))
    for k, v in m.counts.items():
        st.count(k, v)
    st.execution((where, debug, prog, got, gs))
    st.transitions += len(got)
    if got != exp or sorted(gs) != sorted(es):
        i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        st.violation('%s, %s: %s%s' % (where, ' then '.join('%s around %s' % ('/'.join(c) or 'nothing', l) for c, l in prog),
                                       'observed %s where %s should be seen' % (got[i:i + 2] or 'nothing', exp[i:i + 2] or 'nothing more')
                                       if got != exp else 'skips recorded: %s, expected %s' % (gs, es), ' (debugger on)' if debug else ''),
                     dict(where=where, program=prog, got=got + gs, expected=exp + es))
        return False
    return True


_JOB = [None]
TEST = '''
import slash
from mc.checks import c16

def test_it():
    c16._JOB[0]('test')
'''
_dirs = {}


def _dir():
    import os
    k = os.getpid()
    if k not in _dirs:
        _dirs[k] = world.fresh_dir('c16')
        world.write_tree(_dirs[k], {'test_a.py': TEST})
    return _dirs[k]


class FakeDebugger(types.ModuleType):
    pass


def in_session(job, where, debug):
    """runs job() inside a test / in a session hook of a real session"""
    d = _dir()
    done = []
    hooks = hook_callbacks()

    def wrapped(w):
        if w != where:
            return
        context.session.register_skip_exception(Custom)
        done.append(1)
        job()

    def session_start():
        wrapped('session')
    session_start.__name__ = 'session_start'
    hooks['session_start'] = session_start
    _JOB[0] = wrapped
    cfg = {}
    fake = None
    if debug:
        fake = FakeDebugger('pudb')

        def post_mortem(tb, tp, value):
            if CUR[0] is not None:
                CUR[0].add('debugger', CUR[0].name(value))
        fake.post_mortem = post_mortem
        cfg['debug.enabled'] = True
    old = sys.modules.get('pudb')
    try:
        if fake is not None:
            sys.modules['pudb'] = fake
        out = world.run_session(d, [d + '/test_a.py'], hooks=hooks, config=cfg)
    finally:
        sys.modules.pop('pudb', None)
        if old is not None:
            sys.modules['pudb'] = old
        _JOB[0] = None
        CUR[0] = None
    if not done:
        raise AssertionError('the job did not run: %r %s' % (out.raised, out.report.getvalue()))
    return out


def run_all(progs, where, debug, st, batch=150):
    progs = list(progs)
    if where == 'nosession':
        toks = []
        token = object()
        for n, f in hook_callbacks().items():
            gossip.register(f, 'slash.' + n, token=token)
        try:
            for p in progs:
                if not run_program(p, where, debug, st):
                    return
        finally:
            gossip.unregister_token(token)
        return
    for k in range(0, len(progs), batch):
        part = progs[k:k + batch]
        stop = []

        def job():
            for p in part:
                if not run_program(p, where, debug, st):
                    stop.append(1)
                    return
        in_session(job, where, debug)
        if stop:
            return


# ------------------------------------------------------------------------------------------ two threads
class Gates(object):
    """Runs two threads in lock step: each proceeds to its next gate only when the schedule says so."""
    def __init__(self, schedule):
        self.schedule = schedule
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.back = threading.Semaphore(0)
        self.done = [False, False]

    def gate(self, i):
        self.back.release()
        self.go[i].acquire()

    def run(self, funcs):
        def target(i):
            self.go[i].acquire()
            try:
                funcs[i]()
            finally:
                self.done[i] = True
                self.back.release()
        ts = [threading.Thread(target=target, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        taken = []
        for i in list(self.schedule) + [0, 1] * 20:
            if self.done[i]:
                continue
            taken.append(i)
            self.go[i].release()
            self.back.acquire()
        for t in ts:
            t.join()
        return taken


def steps(chain):
    return 2 * len(chain) + 2


def gated_run(chain, exc, g, i, log):
    """one gate before entering each context, before the raise and after leaving each context"""
    g.gate(i)
    if not chain:
        raise exc
    try:
        with real_ctx(chain[0]):
            gated_run(chain[1:], exc, g, i, log)
    finally:
        g.gate(i)


T_CHAINS = [('H',), ('Rv',), ('Rv', 'H'), ('H', 'Rt')]
T_CHAINS_THOROUGH = T_CHAINS + [('Hs',), ('Lv', 'H'), ('H', 'Re'), ('Hs', 'Rv', 'H'), ('Le', 'H'), ('H', 'Lv')]


def interleavings(a, b):
    for pos in itertools.combinations(range(a + b), a):
        s = [1] * (a + b)
        for p in pos:
            s[p] = 0
        yield s


def run_threads(chains, kinds, st, limit=None):
    n = [steps(c) for c in chains]
    # expected: each thread behaves as it would alone
    want = []
    for c, k in zip(chains, kinds):
        m = M('test', False)
        me = ME(k, type(make_exc(k)), text=str(make_exc(k)))
        esc = model_run(c, me, m)
        want.append((me in m.processed, esc is not None and esc.kind))
    scheds = list(interleavings(*n))
    bad = []

    def job():
        for s in scheds:
            excs = [make_exc(k) for k in kinds]
            got = [None, None]
            seen = []
            r = Real()
            CUR[0] = r
            for e in excs:
                r.name(e)
            g = Gates(s)

            def thread(i):
                def f():
                    try:
                        gated_run(chains[i], excs[i], g, i, None)
                        got[i] = None
                    except BaseException as e:     # pylint: disable=broad-except
                        got[i] = 'enc' if isinstance(e, ExpectedExceptionNotCaught) else (kinds[i] if e is excs[i] else 'other %r' % e)
                return f
            g.run([thread(0), thread(1)])
            CUR[0] = None
            obs = [(sum(1 for x in r.log if x == ('before', 'X%d' % i)), got[i]) for i in (0, 1)]
            exp = [(int(w[0]), w[1] or None) for w in want]
            st.execution((chains, kinds, s, obs))
            st.state((chains, kinds, tuple(s)))
            st.count('interleavings')
            if obs != exp:
                bad.append((s, obs, exp))
                return
    in_session(job, 'test', False)
    if bad:
        s, obs, exp = bad[0]
        st.violation('threads %s raising %s, schedule %s: (times processed, escaped) %s, expected %s' % (chains, kinds, s, obs, exp),
                     dict(chains=chains, kinds=kinds, schedule=s))


def bound(tier):
    return ('all chains of up to %d contexts (out of %d kinds) around %d kinds of exceptions, in a test; up to 2 in session scope, without a session and with a debugger; '
            'every pair of programs raising the same object; all interleavings of two threads in chains of up to %d contexts' % (
                3, len(CTX), len(LEAVES), 3 if tier == 'thorough' else 2)
            + ('; chains of 4 and 5 over %d contexts x %d exceptions' % (len(CTX_DEEP), len(LEAVES_DEEP)) if tier == 'thorough' else ' (the middle one out of %d kinds)' % len(CTX_DEEP)))


def tasks(tier):
    for where, debug in (('test', False), ('test', True), ('session', False), ('nosession', False)):
        yield ['progs', 'chain', where, debug, tier]
    for c in CTX:
        yield ['progs', 'chain3:' + c, 'test', False, tier]
    for c in CTX:
        yield ['progs', 'again:' + c, 'test', False, tier]
    chains = T_CHAINS_THOROUGH if tier == 'thorough' else T_CHAINS
    for a, b in itertools.combinations_with_replacement(chains, 2):
        yield ['threads', a, b]
    if tier == 'thorough':
        for a, b in itertools.product(CTX_DEEP, repeat=2):
            yield ['progs', 'chain4:%s,%s' % (a, b), 'test', False, tier]
        for c in CTX:
            yield ['progs', 'chain3:' + c, 'session', False, tier]
            yield ['progs', 'chain3:' + c, 'test', True, tier]
        for a, b, c in itertools.product(CTX_DEEP, repeat=3):
            yield ['progs', 'chain5:%s,%s,%s' % (a, b, c), 'test', False, tier]


def run_task(task, st):
    if task[0] == 'threads':
        for kinds in itertools.product(('V', 'KE'), repeat=2):
            run_threads((tuple(task[1]), tuple(task[2])), kinds, st)
            if st.violations:
                return
        return
    _, part, where, debug = task[:4]
    progs = programs(task[4], part)
    if where == 'nosession':
        progs = [p for p in progs if all(l not in ('skip', 'cskip') for _, l in p)]
    run_all(progs, where, debug, st)
