"""Runs real slash sessions in this process, one after the other, from generated test files, with every
user-code point instrumented.  Points ask the current *plan* for an action (the environment's answer)."""
import gc, os, sys, io, shutil, signal, contextlib
from munch import Munch
from . import env
import slash, gossip, logbook
from slash.ctx import context
from slash.frontend.slash_run import slash_run
from slash.frontend.slash_list import slash_list
from slash.exceptions import TerminatedException

_counter = [0]
_sessions = [0]


def fresh_dir(prefix='s'):
    _counter[0] += 1
    d = os.path.join(getattr(env, 'PROC', env.SCRATCH), '%s%d' % (prefix, _counter[0]))
    os.makedirs(d)
    return d


class FaultError(Exception):
    pass


class FaultBase(BaseException):
    pass


class CustomSkip(Exception):
    pass


_cached = [None]


class Recorder(object):
    """Event trace + fault plan of one execution."""

    def __init__(self, plan=None, hook_points=()):
        self.plan = dict(plan or {})
        _cached[0] = None
        self.events = []
        self.points = []        # names of the points in the order they were reached
        self.applied = []

    def ev(self, *a):
        self.events.append(a)

    def point(self, name, **kw):
        idx = len(self.points)
        self.points.append(name)
        act = self.plan.get(idx)
        self.events.append(('point', name, act or '', idx))
        if act:
            self.applied.append((idx, name, act))
            perform(act, 'p%d' % idx)


REC = None


def perform(act, tag):
    if act == 'A':
        raise AssertionError('failure ' + tag)
    if act == 'E':
        raise FaultError('error ' + tag)
    if act == 'S':
        slash.skip_test('skip ' + tag)
    if act == 'K':
        raise KeyboardInterrupt('kbd ' + tag)
    if act == 'T':
        os.kill(os.getpid(), signal.SIGTERM)
        for _ in range(3):
            pass
        return
    if act == 'e':
        slash.add_error('added error ' + tag)
        return
    if act == 'f':
        slash.add_failure('added failure ' + tag)
        return
    if act == 's':
        context.result.add_skip('added skip ' + tag)
        return
    if act == 'F':
        raise slash.exception_handling.mark_exception_fatal(FaultError('fatal ' + tag))
    if act == 'g':
        slash.add_error('added fatal ' + tag).mark_fatal()
        return
    if act == 'C':
        # the same exception object every time (memoized failures, futures...)
        if _cached[0] is None:
            _cached[0] = FaultError('error cached')
        raise _cached[0]
    if act == 'W':
        try:
            raise AssertionError('inner %sx' % tag)
        except AssertionError as e:
            raise FaultError('error ' + tag) from e
    if act == 'N':
        with slash.exception_handling.handling_exceptions(swallow=True):
            with slash.exception_handling.handling_exceptions():
                raise FaultError('error ' + tag)
        return
    if act == 'B':
        raise FaultBase('error ' + tag)
    if act == 'R':
        context.session.register_skip_exception(CustomSkip)
        raise CustomSkip('skip ' + tag)
    if act == 'X':
        sys.exit(0)
    raise AssertionError('unknown action %r' % act)


def P(name, **kw):
    if REC is not None:
        REC.point(name, **kw)


def EV(*a):
    if REC is not None:
        REC.ev(*a)


_SLASH_HOOKS = None


class Outcome(object):
    pass


def reset_hooks():
    for hook in gossip.get_group('slash').get_hooks():
        hook.unregister_all()


def write_tree(d, files):
    for name, src in files.items():
        p = os.path.join(d, name)
        pd = os.path.dirname(p)
        if not os.path.isdir(pd):
            os.makedirs(pd)
        with open(p, 'w') as f:
            f.write(src)


@contextlib.contextmanager
def isolated():
    """Everything a session may leave behind in the process is put back."""
    slash.config.backup()
    handlers = list(logbook.Handler.stack_manager.iter_context_objects())
    sig = {s: signal.getsignal(s) for s in (signal.SIGTERM, signal.SIGINT)}
    mods = set(sys.modules)
    path = list(sys.path)
    cwd = os.getcwd()
    depth = context_depth()
    import warnings as _w
    filters = list(_w.filters)
    show = _w.showwarning
    try:
        yield
    finally:
        slash.config.restore()
        for s, hnd in sig.items():
            signal.signal(s, hnd)
        for m in set(sys.modules) - mods:
            f = getattr(sys.modules[m], '__file__', None) or ''
            if f.startswith(env.SCRATCH):
                sys.modules.pop(m, None)
        sys.path[:] = path
        os.chdir(cwd)
        while context_depth() > depth:
            slash.ctx.pop_context()
        _w.filters[:] = filters
        _w.showwarning = show


def context_depth():
    return len(getattr(context, '_stack', ()))


def resume_dir():
    # slash binds its resume database once per process, so there is one per worker process
    return os.path.join(getattr(env, 'PROC', env.SCRATCH), 'resume')


def wipe_resume():
    import sqlite3
    for f in os.listdir(resume_dir()) if os.path.isdir(resume_dir()) else ():
        if f.endswith('.db'):
            c = sqlite3.connect(os.path.join(resume_dir(), f))
            for t in ('resume_state', 'session_metadata'):
                c.execute('delete from %s' % t)
            c.commit()
            c.close()


def run_session(d, argv, rec=None, hooks=None, config=None, resume=False, rerun=False, app_callback=None,
                isolate=True, keep_hooks=False):
    """One `slash run` in this process.  hooks: {hook name: callback}.  Returns an Outcome."""
    global REC
    _sessions[0] += 1
    if _sessions[0] % 60 == 0:
        gc.collect()
    out = Outcome()
    out.report = io.StringIO()
    out.raised = None
    out.app = None
    apps = []

    def cb(app):
        apps.append(app)
        if app_callback is not None:
            app_callback(app)
    prev = REC
    REC = rec
    ctx = isolated() if isolate else contextlib.nullcontext()
    with ctx:
        cfg = {'run.resume_state_path': resume_dir(),
               'run.project_customization_file_path': os.path.join(d, '.slashrc'),
               'run.project_name': 'p',
               'run.user_customization_file_path': os.path.join(d, '.nouser')}
        cfg.update(config or {})
        for k, v in cfg.items():
            slash.config.assign_path(k, v)
        token = object()
        try:
            for name, func in (hooks or {}).items():
                gossip.register(func, 'slash.' + name, token=token)
            try:
                out.app = slash_run(Munch(argv=list(argv), cmd='run'), report_stream=out.report,
                                    working_directory=d, resume=resume, rerun=rerun, app_callback=cb)
            except BaseException as e:
                out.raised = e
        finally:
            gossip.unregister_token(token)
            if not keep_hooks:
                pass
            REC = prev
    if out.app is None and apps:
        out.app = apps[0]
    out.session = out.app.session if out.app is not None else None
    out.exit_code = out.app.exit_code if out.app is not None else None
    return out
