"""Instrumented suites + deviation-bounded exploration of fault plans over real in-process sessions.

A *point* is a place where user code runs (fixture setup/teardown, body, cleanup, hook callback).  The
default environment answer at a point is 'nothing happens'; a deviation is an exception, an added error, a
skip, an interruption...  `explore` runs every plan with at most `bound` deviations, discovering points on
the real code as it goes (a later deviation is placed on points reached after the earlier one)."""
import os
from . import env, world
from .world import Recorder, run_session, fresh_dir, write_tree
from slash.ctx import context
import slash

HOOKS = ['before_session_start', 'session_start', 'after_session_start', 'test_avoided', 'test_start',
         'before_test_cleanups', 'test_interrupt', 'test_success', 'test_error', 'test_failure', 'test_skip',
         'test_end', 'before_session_cleanup', 'session_interrupt', 'session_end', 'after_session_end',
         'error_added', 'app_quit', 'result_summary']

# hooks whose callback is also a point where the plan may act
FAULT_HOOKS = ['session_start', 'after_session_start', 'test_avoided', 'test_start', 'before_test_cleanups', 'test_success',
               'test_error', 'test_failure', 'test_skip', 'test_end', 'before_session_cleanup', 'session_end']

OUTCOME_HOOKS = ('test_success', 'test_error', 'test_failure', 'test_skip')


def cur_test():
    t = context.test
    if t is None or t.__slash__ is None:
        return None
    return t.__slash__.address


class Suite(object):
    def __init__(self, name, files, argv=(), hooks=None, order=None, hook_body=None, config=None):
        self.name = name
        self.files = files
        self.argv = list(argv)
        self.order = order or sorted(files)
        self.fault_hooks = FAULT_HOOKS if hooks is None else hooks
        self.hook_body = hook_body or {}      # hook name -> callable(recorder) executed in the hook
        self.config = config or {}


class Exec(object):
    pass


def snapshot(out, d):
    ex = Exec()
    s = out.session
    ex.exit_code = out.exit_code
    ex.raised = repr(out.raised) if out.raised is not None else None
    ex.interrupted_app = out.app.interrupted if out.app is not None else None
    ex.results = []
    ex.report = out.report.getvalue()
    if s is not None:
        for r in s.results.iter_test_results():
            ex.results.append(result_info(r))
        g = s.results.global_result
        ex.global_result = result_info(g, True)
        ex.counts = dict(total=s.results.get_num_results(), success=s.results.get_num_successful(), errors=s.results.get_num_errors(),
                         failures=s.results.get_num_failures(), skipped=s.results.get_num_skipped(),
                         skipped_run=s.results.get_num_skipped(include_not_run=False),
                         started=s.results.get_num_started(), not_run=s.results.get_num_not_run(),
                         fatal=s.results.has_fatal_errors())
        ex.session_success = s.results.is_success(allow_skips=True)
        ex.session_success_strict = s.results.is_success()
        ex.session_interrupted = s.results.is_interrupted()
        ex.complete = s.is_complete()
        ex.session_id = s.id
    return ex


def result_info(r, is_global=False):
    i = Exec()
    i.address = None if is_global else r.test_metadata.address
    i.index = None if is_global else r.test_metadata.test_index0
    i.errors = [msg_of(e) for e in r.get_errors()]
    i.failures = [msg_of(e) for e in r.get_failures()]
    i.skips = list(r.get_skips())
    i.started = r.is_started()
    i.finished = r.is_finished()
    i.interrupted = r.is_interrupted()
    i.is_error, i.is_failure, i.is_just_failure = r.is_error(), r.is_failure(), r.is_just_failure()
    i.is_skip, i.is_not_run = r.is_skip(), r.is_not_run()
    i.success, i.success_skips = r.is_success(), r.is_success(allow_skips=True)
    i.success_finished = r.is_success_finished()
    i.fatal = r.has_fatal_errors()
    return i


def msg_of(e):
    return (e.message or '')


def info_tuple(i):
    return (i.address, i.index, tuple(i.errors), tuple(i.failures), tuple(i.skips), i.started, i.finished, i.interrupted)


_dirs = {}
_runs = [0]


def suite_dir(suite):
    key = (os.getpid(), suite.name)
    if key not in _dirs:
        d = fresh_dir('suite')
        write_tree(d, suite.files)
        _dirs[key] = d
    return _dirs[key]


def execute(suite, plan, extra_argv=(), config=None):
    d = suite_dir(suite)
    _runs[0] += 1
    if _runs[0] % 200 == 0:
        world.wipe_resume()
    rec = Recorder(plan)
    hooks = {}
    for name in HOOKS:
        hooks[name] = _make_hook(rec, suite, name)
    cfg = dict(suite.config)
    cfg.update(config or {})
    argv = [os.path.join(d, f) for f in suite.order] + suite.argv + list(extra_argv)
    out = run_session(d, argv, rec=rec, hooks=hooks, config=cfg)
    ex = snapshot(out, d)
    ex.suite, ex.plan = suite.name, dict(plan)
    ex.events, ex.points, ex.applied = rec.events, rec.points, rec.applied
    for i in ex.results:
        i.address = i.address.replace(d + '/', '')
    ex.events = [tuple(x.replace(d + '/', '') if isinstance(x, str) else x for x in e) for e in ex.events]
    return ex


def _make_hook(rec, suite, name):
    fault = name in suite.fault_hooks
    body = suite.hook_body.get(name)

    def callback(**kw):
        if name == 'error_added':
            res = kw.get('result')
            rec.ev('hook', name, None if res.is_global_result() else res.test_metadata.address,
                   kw['error'].message, kw['error'].is_failure() if hasattr(kw['error'], 'is_failure') else None)
        elif name in ('test_avoided', 'test_skip'):
            rec.ev('hook', name, cur_test(), kw.get('reason'))
        else:
            rec.ev('hook', name, cur_test())
        if body is not None:
            body(rec)
        if fault:
            rec.point('hook:' + name)
    argnames = {'error_added': 'error, result', 'test_avoided': 'reason', 'test_skip': 'reason'}.get(name, '')
    ns = {'callback': callback}
    call = ', '.join('%s=%s' % (a, a) for a in argnames.split(', ') if a)
    exec('def hook(%s):\n    callback(%s)' % (argnames, call), ns)
    ns['hook'].__name__ = name
    return ns['hook']


def explore(suite, actions, bound, visit, start_plan=None, run=execute, second=None):
    """Depth-first over plans.  actions(name, depth) -> iterable of action letters for that point."""
    def rec(plan, last, depth):
        ex = run(suite, plan)
        visit(ex)
        if depth >= bound:
            return
        for j in range(last + 1, len(ex.points)):
            acts = actions(ex.points[j], depth)
            for a in acts:
                p = dict(plan)
                p[j] = a
                rec(p, j, depth + 1)
    plan = dict(start_plan or {})
    last = max(plan) if plan else -1
    rec(plan, last, len(plan))


def first_level(suite, actions, run=execute):
    """Plans with exactly one deviation (used to split the exploration into tasks), plus the points."""
    ex = run(suite, {})
    plans = []
    for j, name in enumerate(ex.points):
        for a in actions(name, 0):
            plans.append({j: a})
    return ex, plans
