"""C03: lifecycle notifications are paired and ordered, under every plan of faults up to the bound."""
from .. import lifecycle, suites
from ..lifecycle import OUTCOME_HOOKS

PROPERTY = 'C03'
RAISING = 'AESK'
INTERRUPT = ('K', 'T')


def acts1(name, depth):
    return ('E', 'K', 'A', 'S', 'T', 'e', 'F') if depth == 0 else ('E', 'K', 'S')


PLAN = {
    'quick': [('one', 1), ('cls', 2), ('two', 1), ('three', 1), ('avoid', 1), ('avoid2', 1), ('mini', 2), ('sg', 1)],
    'thorough': [('mini', 3), ('cls', 1), ('one', 2), ('two', 2), ('avoid', 2), ('avoid2', 2), ('three', 2)],
}


def bound(tier):
    return 'all fault plans: ' + ', '.join('suite %s <=%d faults' % x for x in PLAN[tier])


def tasks(tier):
    for name, b in PLAN[tier]:
        yield [name, b, None]
        if b >= 2:
            # one task per first deviation
            base, plans = first_level(name)
            for p in plans:
                yield [name, b, p]


_fl = {}


def first_level(name):
    from .. import core
    return core.in_child(_fl_run, name)


def _fl_run(name):
    ex, plans = lifecycle.first_level(suites.SUITES[name], acts1)
    return ex.points, plans


def run_task(task, st):
    name, b, p = task
    suite = suites.SUITES[name]

    def visit(ex):
        bad = monitor(ex, st)
        st.execution((ex.events, ex.exit_code), sample=dict(suite=name, plan=ex.plan, trace=[e for e in ex.events if e[0] == 'hook'][:40]))
        if bad:
            st.violation('suite %s, faults %s: %s' % (name, ex.applied, '; '.join(bad[:3])),
                         dict(suite=name, plan=ex.plan, events=ex.events))
    if p is None:
        lifecycle.explore(suite, acts1, 1, visit)
    else:
        p = {int(k): v for k, v in p.items()}
        def visit2(ex):
            if len(ex.plan) > 1:
                visit(ex)
        lifecycle.explore(suite, acts1, b, visit2, start_plan=p)


def monitor(ex, st=None):
    bad = []
    started = ended = False      # session
    start_ok = True
    cur = None                   # test between start and end
    done = []
    outcome = None
    cleaned = False
    n_end = 0
    session_cleanup = 0
    interrupted = False
    where = {}
    last_hook = None
    for e in ex.events:
        if e[0] == 'point':
            if e[2] in INTERRUPT:
                interrupted = True
                if cur is not None:
                    where[cur] = True
            if e[1] == 'hook:session_start' and e[2] in ('A', 'E', 'S', 'K', 'T', 'F'):
                start_ok = False
        elif e[0] == 'cleanup':
            nm = e[1]
            if n_end:
                bad.append('cleanup %s ran after session_end' % nm)
            if not nm.endswith(('.m', '.ms', '.s')):
                if cur is None:
                    bad.append('test cleanup %s ran outside of its test' % nm)
                elif outcome is not None:
                    bad.append('test cleanup %s ran after the outcome notification' % nm)
        elif e[0] == 'hook':
            h, t = e[1], e[2]
            if h == 'session_start':
                if started:
                    bad.append('session_start twice')
                started = True
                if cur or done:
                    bad.append('session_start after tests')
            elif h == 'test_start':
                if not started or not start_ok or n_end:
                    bad.append('test_start outside of the session')
                if cur is not None:
                    bad.append('test_start of %s while %s has not ended' % (t, cur))
                if t in done:
                    bad.append('test %s started twice' % t)
                if t is None:
                    bad.append('test_start without a current test')
                cur, outcome = t, None
            elif h == 'test_end':
                if cur is None or cur != t:
                    bad.append('test_end of %s while current is %s' % (t, cur))
                if outcome is None and not where.get(cur):
                    bad.append('test %s ended without an outcome notification' % t)
                done.append(t)
                cur = None
            elif h in OUTCOME_HOOKS:
                if cur is None or t != cur:
                    bad.append('%s for %s outside of its test' % (h, t))
                elif outcome is not None:
                    bad.append('second outcome notification %s for %s' % (h, t))
                outcome = h
            elif h == 'test_avoided':
                if cur is not None or t in done:
                    bad.append('test_avoided for %s inside a test' % t)
                done.append(t)
                where[t] = 'avoided'
            elif h == 'before_session_cleanup':
                session_cleanup += 1
                if cur is not None:
                    bad.append('session cleanup before test_end of %s' % cur)
                if session_cleanup > 1 and not interrupted:
                    bad.append('before_session_cleanup twice')
            elif h == 'session_end':
                n_end += 1
                if cur is not None:
                    bad.append('session_end before test_end of %s' % cur)
                if not started:
                    bad.append('session_end without session_start')
            elif h == 'after_session_end':
                if n_end != 1:
                    bad.append('after_session_end before session_end')
        if st is not None:
            st.state((ex.suite, started, start_ok, n_end, cur, outcome, tuple(done), session_cleanup, interrupted, e[:2]))
    if cur is not None:
        bad.append('test %s started but never ended' % cur)
    if started and start_ok and n_end != 1:
        bad.append('session_end notified %d times' % n_end)
    if not started and n_end:
        bad.append('session_end without session_start')
    if len(set(done)) != len(done):
        bad.append('a test ended twice: %s' % done)
    return bad
