"""C11: real workers.  Parent and workers are all real `slash run` sessions; every request of a worker stops at a controlled
scheduler, which explores every order of handling them.  What each worker runs is told by the test code itself and compared with
the assignment; what the parent ends up with is compared with a sequential run of the same suite; the requests of every worker
are accepted by the model worker C10 explores."""
import os, re, shutil
import slash
from .. import env, world, pworld
from ..core import h, HarnessError
from ..pworld import Sched, Stuck, RealWorker, ModelWorker, Zygotes

PROPERTY = 'C11'
HANG_SECS = 600 if env.TIER == 'quick' else 7200
ASSUMPTIONS = ['one request of one worker is handled at a time; the liveness thread is C22\'s business',
               'tests behave the same in any order and in any process, apart from what is compared']

HEAD = '''import slash, warnings, threading, logbook, os, sys
from mc.world import EV
log = logbook.Logger('test')

class ModErr(Exception):
    pass

class WithLock(object):
    def __init__(self):
        self.lock = threading.Lock()

    def __repr__(self):
        return '<with lock>'

class Refuses(object):
    def __reduce__(self):
        raise ValueError('cannot be sent anywhere')

    def __repr__(self):
        return '<refuses>'

class BadErr(Exception):
    """built by two arguments, and so not from its args alone"""
    def __init__(self, a, b):
        super(BadErr, self).__init__('%s and %s' % (a, b))

def local_error():
    class LocalErr(Exception):
        pass
    return LocalErr('a local one')

def local_object():
    class Local(object):
        def __repr__(self):
            return '<local>'
    return Local()

def local_warning():
    class LocalWarning(UserWarning):
        pass
    return LocalWarning
'''

BODIES = {
    'ok': 'pass',
    'fail': 'assert False, "this fails"',
    'err': 'raise RuntimeError("this breaks")',
    'skip': 'slash.skip_test("for a reason")',
    'addskip': 'slash.add_error("one"); slash.context.result.add_skip("also skipped")',
    'adderr': 'slash.add_error("one"); slash.add_error("two"); slash.add_failure("three")',
    'fatal': 'slash.add_error("bad").mark_fatal()',
    'moderr': 'raise ModErr("of the module")',
    'baderr': 'raise BadErr(1, 2)',
    'localerr': 'raise local_error()',
    'lockerr': 'slash.add_error(WithLock())',
    'lockfail': 'slash.add_failure(WithLock())',
    'lambdaerr': 'slash.add_error(lambda: 0)',
    'refuserr': 'slash.add_error(Refuses())',
    'attrerr': 'e = RuntimeError("with attribute"); e.x = WithLock(); e.y = 3; raise e',
    'ctrl': 'raise RuntimeError("a\\x00b\\x1b[31m \\ud800 \\u05d0")',
    'ctrlskip': 'slash.skip_test("a\\x01b")',
    'chain': 'try:\n        raise ValueError("inner")\n    except ValueError as e:\n        raise ModErr("outer") from e',
    'data': 'slash.context.result.data["x"] = [1, "a\\x02"]; slash.context.result.data["y"] = {2: None}',
    'datalocal': 'slash.context.result.data["x"] = local_object(); assert False',
    'dataref': 'slash.context.result.data["x"] = Refuses()',
    'details': 'slash.set_test_detail("k", "v\\x03"); slash.context.result.details.append("l", 1); slash.context.result.details.append("l", 2)',
    'addbaderr': 'slash.add_error(BadErr(1, 2))',
    'addbadfail': 'slash.add_failure(BadErr(1, 2))',
    'addctrl': 'slash.add_error(ModErr("x\\x01"))',
    'skipbad': 'slash.skip_test(BadErr(1, 2))',
    'skiplock': 'slash.skip_test(WithLock())',
    'warn': 'warnings.warn("careful")',
    'warn2': 'warnings.warn("careful", DeprecationWarning); log.warning("watch out {}", 3)',
    'warnctrl': 'warnings.warn("careful \\x01")',
    'warnlocal': 'warnings.warn("careful", local_warning())',
    'sesserr': 'slash.context.session.results.global_result.add_error("of the session")',
    'sessctrl': 'slash.context.session.results.global_result.add_error("of the \\x01 session")',
    'sesscleanup': 'def bad():\n        raise ModErr("in session cleanup")\n    slash.add_cleanup(bad, scope="session")',
    'modcleanup': 'slash.add_cleanup(lambda: EV("modcleanup"), scope="module")',
    'testcleanup': 'def bad():\n        raise ModErr("in cleanup")\n    slash.add_cleanup(bad)',
    'extralog': 'slash.context.result.add_extra_log_path("/x/y")',
    'int': 'raise KeyboardInterrupt()',
    'exit': 'os._exit(3)',
}
DECOR = {'req': '@slash.requires(False, "not here")\n', 'skipdec': '@slash.skipped("by decorator")\n', 'repeat': '@slash.repeat(2)\n',
         'param': '@slash.parametrize("p", [1, "a\\x01", None])\n', 'excl': '@slash.parametrize("p", [1, 2])\n@slash.exclude("p", [2])\n'}


def function(name, kind):
    if kind in DECOR:
        arg = 'p' if kind in ('param', 'excl') else ''
        return '%sdef test_%s(%s):\n    EV("run", "%s"%s)\n' % (DECOR[kind], name, arg, name, ', repr(p)' if arg else '')
    return 'def test_%s():\n    EV("run", "%s")\n    %s\n' % (name, name, BODIES[kind])


def suite(spec):
    """{file: source} of a suite spec"""
    kind = spec[0]
    if kind == 'funcs':
        return {'test_a.py': HEAD + ''.join(function('%d' % i, k) for i, k in enumerate(spec[1]))}
    if kind == 'two-files':
        return {'test_a.py': HEAD + function('x', spec[1][0]).replace('"x"', '"a.x"') + function('y', 'ok').replace('"y"', '"a.y"'),
                'test_b.py': HEAD + function('x', spec[1][1]).replace('"x"', '"b.x"')}
    if kind == 'classes':
        base = '''
class TestBase(slash.Test):
    def test_m(self):
        EV("run", type(self).__name__, "m")
        %s

class TestOne(TestBase):
    pass

class TestTwo(TestBase):
    def test_m(self):
        EV("run", type(self).__name__, "own m")

def test_m():
    EV("run", "function", "m")
''' % dict(BODIES, **{'pass': 'pass'})[spec[1]]
        return {'test_a.py': HEAD + base}
    if kind == 'param-classes':
        return {'test_a.py': HEAD + '''
class TestOne(slash.Test):
    @slash.parametrize("p", [1, 2])
    def before(self, p):
        self.p = p

    def test_m(self):
        EV("run", "One", self.p)

class TestTwo(TestOne):
    @slash.parametrize("q", [3])
    def test_m(self, q):
        EV("run", "Two", self.p, q)
        assert (self.p, q) != (2, 3)
'''}
    if kind == 'fixtures':
        return {'test_a.py': HEAD + '''
@slash.fixture(scope="module")
@slash.parametrize("x", [1, 2])
def m(x, this):
    EV("fixture", x)
    this.add_cleanup(lambda: EV("unfixture", x))
    return x

def test_1(m):
    EV("run", "1", m)

def test_2(m):
    EV("run", "2", m)
    assert m == 1
'''}
    raise HarnessError(spec)


CONF = {'parallel.communication_timeout_secs': 1, 'parallel.no_request_timeout': 3, 'parallel.worker_connect_timeout': 1}


def error_of(e):
    t = e.exception_type
    frames = [(os.path.basename(f.filename), f.lineno, f.func_name, f.is_in_test_code()) for f in e.traceback.frames] if e.traceback is not None else None
    # the frames below the test differ between a sequential run and a worker only in who called slash
    if frames is not None:
        frames = [f for f in frames if f[0].startswith('test_')]
    return (e.message, getattr(t, '__name__', t), e.exception_str, e.is_failure(), e.is_fatal(), tuple(frames or ()), e.has_custom_message())


def plain(v):
    return re.sub(r' at 0x[0-9a-f]+', '', repr(v))


def summary(r, lossy=()):
    def errs(es):
        return tuple(tuple(re.sub(r' at 0x[0-9a-f]+', '', x) if isinstance(x, str) else x for x in error_of(e)) for e in es)
    return (r.is_started(), r.is_finished(), r.is_interrupted(), errs(r.get_errors()), errs(r.get_failures()), tuple(re.sub(r' at 0x[0-9a-f]+', '', str(s)) for s in r.get_skips()),
            tuple(sorted((k, plain(v)) for k, v in r.data.items() if k not in lossy)), tuple(sorted((k, plain(v)) for k, v in r.details.all().items())),
            tuple(r.get_log_paths()[1:] if r.get_log_path() else r.get_log_paths()))


def warning_of(w):
    return (w.message, os.path.basename(w.filename), w.lineno, w.details.get('type'), str(w))


def warnings_of(session):
    # importing (and rewriting) the code warns too, in every process which does so
    return sorted(repr(warning_of(w)) for w in session.warnings if os.path.basename(w.filename).startswith('test_'))


def reference(d, argv, kinds):
    """the sequential run"""
    rec = world.Recorder()
    out = world.run_session(d, argv, rec=rec, config=CONF, hooks={'test_start': lambda: world.EV('start', slash.context.test.__slash__.address)})
    if out.raised is not None:
        raise HarnessError('the sequential run ended by %r' % out.raised)
    # which test code ran within which test, in the order of the collection
    runs = []
    for e in rec.events:
        if e[0] == 'start':
            runs.append([])
        elif e[0] == 'run':
            runs[-1].append(e)
    results = list(out.session.results.iter_test_results())
    ident = []
    it = iter(runs)
    for r in results:
        # a test skipped before it started runs nothing; one which the sequential run never reached is unknown
        ident.append(next(it) if r.is_started() else [] if r.get_skips() else None)
    # what a scope wider than the test does is known only after the test was reported
    late_of = {i for i, k in enumerate(kinds) if k == 'sesscleanup'}
    late = [e.message for i in late_of for e in results[i].get_errors()]
    return dict(results=[summary(r) for r in results], ident=ident, addresses=[r.test_metadata.address for r in results],
                warnings=warnings_of(out.session), exit_code=out.exit_code,
                success=out.session.results.is_success(allow_skips=True),
                session_errors=[e.message for e in out.session.results.global_result.get_errors()] + late, late=late_of)


def same(got, want, late, lossy):
    """is the recorded result the one of the sequential run?"""
    def blur(r, keep_errors):
        errors = [tuple(e) for e in r[3]] if keep_errors else []
        return r[:3] + (errors, [tuple(e) for e in r[4]], r[5]) + ((() if lossy else r[6]),) + r[7:]
    def types(r):
        return [e[1] for e in r[3]] + [e[1] for e in r[4]]
    got, want = blur(got, True), blur(want, not late)
    if any(a != b and a is not None for a, b in zip(types(got), types(want))):
        return False
    # the type of the exception is an object of the worker, which need not exist in the parent
    def untyped(r):
        return r[:3] + ([e[:1] + e[2:] for e in r[3]], [e[:1] + e[2:] for e in r[4]]) + r[5:]
    return untyped(got) == untyped(want)


class Observer(object):
    """the parent's record after every request"""
    def __init__(self, cfg, ref):
        self.cfg, self.ref = cfg, ref
        # what cannot be sent by any means may be missing, the rest of the result may not
        self.lossy = bool({'datalocal', 'dataref'} & set(cfg['kinds']))
        self.assigned = {}     # index -> worker
        self.current = {}
        self.finished = []
        self.bad = None
        self.session_errors = []
        self.lost = False

    def state(self):
        return (sorted(self.assigned.items()), sorted(self.finished))

    def fail(self, msg):
        if self.bad is None:
            self.bad = msg

    def signalled(self, sched, w, sig):
        pass

    def __call__(self, sched, who, name, args, value):
        if isinstance(value, Exception):
            return self.fail('the request %s of %s was answered by %s' % (name, who, value))
        if name == 'get_test' and isinstance(value, (list, tuple)):
            i = value[1]
            if i in self.assigned:
                self.fail('test %d was handed out twice' % i)
            forced, excluded = self.cfg.get('forced', {}), self.cfg.get('excluded', {})
            if (i in forced and forced[i] != who) or (i not in forced and i in excluded.get(who, ())):
                self.fail('test %d was handed to worker %s' % (i, who))
            self.assigned[i] = who
            self.current[who] = i
        elif name == 'finished_test':
            i = self.current.pop(who, None)
            self.finished.append(i)
            got = self.recorded(sched, i)
            want = self.ref['results'][i]
            if want is not None and want[0] and not same(got, want, i in self.ref['late'], self.lossy):
                self.fail('test %d (%s) was recorded as\n   %r\ninstead of (as a sequential run records it)\n   %r' % (i, self.ref['addresses'][i], got, want))
        elif name == 'report_session_error':
            self.session_errors.append(args[0])

    def recorded(self, sched, i):
        session = slash.ctx.context.session
        t = sched.server.instance.tests[i]
        return summary(session.results[t])


def conforms(w, orc, ref):
    """the requests of the real worker are those of the model, and it ran what it was told to"""
    model = None
    running = None
    ran = []
    state = 'connect'
    for e in w.log:
        if e[0] == 'ev':
            if e[1] == 'run':
                ran.append(tuple(e[1:]))
            continue
        if e[0] == 'exit':
            if state not in ('left', 'gone'):
                return 'worker %s ended by %r while in %r' % (w.id, e, state)
            continue
        _, name, args, value = e
        if name in ('report_session_error', 'report_warning'):
            continue
        if name == 'connect':
            ok = state == 'connect'
            state = 'connected'
        elif name == 'validate_collection':
            ok = state == 'connected'
            state = 'idle' if value else 'rejected'
        elif name == 'get_test':
            ok = state == 'idle'
            if isinstance(value, (list, tuple)):
                state, running = 'running', value[1]
                if ran:
                    return 'worker %s ran %r without being told to' % (w.id, ran)
            elif value == 'WAITING_FOR_CLIENTS':
                state = 'idle'
            else:
                state = 'leaving'
        elif name == 'finished_test':
            ok = state == 'running'
            want = ref['ident'][running]
            if want is not None and ran != [tuple(x) for x in want]:
                return 'worker %s was given test %d (%s), which runs %r, and ran %r' % (w.id, running, ref['addresses'][running], want, ran)
            ran = []
            state = 'idle' if value is None else 'leaving'
        elif name == 'disconnect':
            ok = state in ('leaving', 'rejected')
            state = 'left'
        else:
            return 'worker %s sent an unknown request %s' % (w.id, name)
        if not ok:
            return 'worker %s sent %s while in %s' % (w.id, name, state)
        if args[0] != w.id:
            return 'worker %s called itself %r' % (w.id, args[0])
    return None


def execute(cfg, d, argv, ref, prefix, visited):
    orc = Observer(cfg, ref)
    cfg = dict(cfg, outcomes=ref['results'])
    sched = Sched(prefix, cfg, cfg.get('budget', 0), worker_cls=RealWorker, limits=(1, 3, 1), visited=visited)
    sched.observer = orc
    sched.zygotes = Zygotes(cfg['workers'], d, CONF)
    hooks = {}

    def tests_loaded(tests):
        workers = slash.ctx.context.session.parallel_manager.workers
        for i, w in cfg.get('forced', {}).items():
            workers[w].force_test(tests[i])
        for w, ids in cfg.get('excluded', {}).items():
            for i in ids:
                workers[w].exclude_test(i)
    if cfg.get('forced') or cfg.get('excluded'):
        hooks['tests_loaded'] = tests_loaded
    sched.install()
    try:
        out = world.run_session(d, ['--parallel', str(cfg['workers'])] + argv, hooks=hooks, config=CONF)
    finally:
        sched.uninstall()
        sched.zygotes.close()
    pm = getattr(out.session, 'parallel_manager', None)
    if pm is not None:
        shutil.rmtree(pm.workers_error_dircetory, ignore_errors=True)
    if isinstance(out.raised, HarnessError):
        raise out.raised
    if sched.stuck:
        orc.fail('the run does not end: %s' % sched.stuck)
    elif out.raised is not None:
        orc.fail('the run ended by %r' % out.raised)
    dies = set(cfg['kinds']) & {'int', 'exit'} or sched.faults
    for w in sched.workers.values():
        bad = conforms(w, orc, ref) if not dies else None
        if bad:
            orc.fail(bad)
    if not orc.bad:
        final(cfg, sched, orc, ref, out, dies)
    sched.oracle = orc
    return sched


def final(cfg, sched, orc, ref, out, dies):
    n = len(ref['results'])
    stops = cfg.get('x') or 'fatal' in cfg['kinds']
    session = out.session
    if not dies and not stops:
        if sorted(orc.finished) != list(range(n)):
            return orc.fail('only the tests %r of %d were executed' % (sorted(orc.finished), n))
        warnings = warnings_of(session)
        if warnings != ref['warnings']:
            return orc.fail('the parent has the warnings %r, a sequential run %r' % (warnings, ref['warnings']))
        for m in ref['session_errors']:
            clean = re.sub('[^ -~]', '', m)
            if not any(re.sub('[^ -~]', '', e).endswith(clean) for e in orc.session_errors) and not any('\\x' in e for e in orc.session_errors):
                return orc.fail('the session error %r never reached the parent: %r' % (m, orc.session_errors))
        if len(orc.session_errors) != len(ref['session_errors']):
            return orc.fail('session errors reported: %r, in a sequential run: %r' % (orc.session_errors, ref['session_errors']))
    success = session.results.is_success(allow_skips=True)
    want = ref['success'] if not dies else False
    if bool(success) != bool(want) or (out.exit_code == 0) != bool(want):
        return orc.fail('the parallel run is %s (exit code %r), the sequential one %s' % ('successful' if success else 'unsuccessful', out.exit_code, 'successful' if want else 'unsuccessful'))


def suites(tier):
    deep = tier == 'thorough'
    kinds = list(BODIES) + list(DECOR)
    plain_kinds = [k for k in kinds if k not in ('int', 'exit')]
    out = []
    for k in kinds:
        out.append((('funcs', [k, 'ok']), 2, dict(startup=True) if k == 'ok' or deep else {}))
    for k in plain_kinds:
        if k in ('fail', 'err', 'adderr', 'localerr', 'lockerr', 'addskip', 'skip', 'sesserr'):
            out.append((('funcs', [k, 'ok']), 2, dict(x=True)))
    out.append((('classes', 'pass'), 2, {}))
    out.append((('classes', 'pass'), 2, dict(forced={0: '2', 1: '1'})))
    out.append((('classes', 'fail'), 1, {}))
    out.append((('param-classes',), 2, {}))
    out.append((('fixtures',), 2, {}))
    out.append((('two-files', ['ok', 'fail']), 2, {}))
    out.append((('two-files', ['modcleanup', 'warn']), 2, dict(excluded={'1': [0, 2]})))
    out.append((('funcs', ['repeat', 'ok']), 2, dict(forced={0: '2'})))
    out.append((('funcs', ['param', 'skip']), 2, dict(excluded={'2': [1]})))
    out.append((('funcs', ['ok', 'warn', 'fail']), 2, {}))
    out.append((('funcs', ['ok', 'ok', 'ok', 'ok']), 2, {}))
    out.append((('funcs', ['ok']), 3, {}))
    if deep:
        out.append((('funcs', ['ok', 'ok']), 3, {}))
        for a in plain_kinds:
            for b in plain_kinds:
                out.append((('funcs', [a, b]), 2, dict(startup=False)))
        out.append((('funcs', ['ok', 'fail', 'skip', 'warn']), 3, {}))
    return out


def tasks(tier):
    for spec, workers, extra in suites(tier):
        yield dict(spec=spec, workers=workers, extra=extra)


def bound(tier):
    return '%d suites x 1-3 workers, every order of handling the requests' % len(suites(tier))


def run_task(task, st):
    spec = task['spec']
    cfg = dict(task['extra'], workers=task['workers'], eager=True, fixed_startup=not task['extra'].get('startup'))
    if 'forced' in cfg:
        cfg['forced'] = {int(k): v for k, v in cfg['forced'].items()}
    cfg['kinds'] = spec[1] if len(spec) > 1 and isinstance(spec[1], (list, tuple)) else []
    d = world.fresh_dir('w')
    files = suite(spec)
    world.write_tree(d, files)
    argv = [os.path.join(d, f) for f in sorted(files)] + (['-x'] if cfg.get('x') else [])
    dies = set(cfg['kinds']) & {'int', 'exit'}
    if dies:
        ref = dict(results=[None] * 9, ident=[[]] * 9, addresses=['?'] * 9, warnings=[], exit_code=1, success=False, session_errors=[], late=())
    else:
        refargs = [a for a in argv if a != '-x']
        ref = reference(d, refargs, cfg['kinds'])
    if 'prefix' in task:
        s = execute(cfg, d, argv, ref, [tuple(c) for c in task['prefix']], set())
        if s.oracle.bad:
            st.violation(s.oracle.bad, dict(trace=s.trace[-12:]))
        return

    def one(prefix, visited):
        s = execute(cfg, d, argv, ref, prefix, visited)
        st.execution((spec, cfg, s.oracle.state(), [x[:3] for x in s.trace]), sample=dict(suite=repr(spec), choices=s.choices[:40]))
        if s.oracle.bad:
            st.violation('%r with %d workers: %s' % (spec, cfg['workers'], s.oracle.bad), dict(task=dict(task, prefix=s.choices), trace=[t if t[0] != 'rpc' or t[2] != 'finished_test' else t[:3] + t[4:] for t in s.trace][-30:]))
            return None
        return s
    pworld.explore(one, st)
