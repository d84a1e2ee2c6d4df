"""C07: an interruption at every point of every suite, alone and together with one other fault."""
from collections import Counter
from .. import lifecycle, suites, env
from ..lifecycle import Suite, OUTCOME_HOOKS
from slash import resuming

PROPERTY = 'C07'
INT = 'KT'

HEAD = suites.HEAD
PARAM = HEAD + '''
@slash.fixture(scope='module')
@slash.parametrize('v', [1, 2])
def fp(v):
    P('fp.setup')
    reg('fp.m', critical=True)
    yield v
    P('fp.teardown')

def test_p1(fp):
    P('p1.body')
    reg('p1.c', critical=True)

@slash.parametrize('y', ['a', 'b'])
def test_p2(y):
    P('p2.body')
'''
SUITES = dict(suites.SUITES)
SUITES['param'] = Suite('param', {'a.py': PARAM, 'c.py': suites.CLS}, hooks=['test_start', 'test_end', 'before_test_cleanups', 'test_success', 'before_session_cleanup'])
SUITES['x'] = Suite('x', {'a.py': suites.A2, 'b.py': suites.B, 'c.py': suites.AV}, hooks=['test_start', 'test_end'])
SUITES['stop'] = Suite('stop', {'a.py': suites.A2, 'b.py': suites.B}, argv=['-x'], hooks=['test_start', 'test_end'])


def acts_k(name, depth):
    return INT


def acts_mixed(name, depth):
    return 'AESe' + INT


PLAN = {'quick': [('one', 'k'), ('cls', 'k'), ('two', 'k'), ('three', 'k'), ('avoid', 'k'), ('sg', 'k'), ('param', 'k'), ('cls', 'mix'), ('x', 'mixb'), ('stop', 'mixb'), ('two', 'mixb'), ('param', 'mixb')],
        'thorough': [('two', 'mix'), ('param', 'mix'), ('sg', 'mix'), ('one', 'mix'), ('avoid2', 'mix')]}


def plan_of(tier):
    return PLAN['quick'] + (PLAN['thorough'] if tier == 'thorough' else [])


def bound(tier):
    return 'keyboard interrupt and SIGTERM at every point, k = alone, mix = all pairs with one other fault or a second interruption: ' + ', '.join('%s/%s' % x for x in plan_of(tier))


def tasks(tier):
    for name, mode in plan_of(tier):
        n = 4 if mode == 'k' else 24
        for k in range(n):
            yield [name, mode, k, n]


def run_task(task, st):
    name, mode, k, n = task
    suite = SUITES[name]
    base = lifecycle.execute(suite, {})
    if not hasattr(suite, 'selected'):
        suite.selected = [i.address for i in base.results]
    bases = {(): base}

    def visit(ex):
        if not any(a in INT for _, _, a in ex.applied):
            bases[tuple(sorted(ex.plan.items()))] = ex
            return
        # read before anything else is run here: the database is emptied every now and then
        ex.saved = [saved_for_resuming(ex, suite, good) for good in (False, True)]
        # the same execution without the interruptions: what had happened before them must not change
        rest = tuple(sorted((i, a) for i, a in ex.plan.items() if a not in INT))
        ref = bases.get(rest)
        if ref is None:
            ref = bases[rest] = lifecycle.execute(suite, dict(rest))
        bad = monitor(ex, ref, suite, st)
        st.execution((ex.events, ex.exit_code), sample=dict(suite=name, plan=ex.plan, outcomes=[lifecycle.info_tuple(i) for i in ex.results]))
        if bad:
            st.violation('suite %s, faults %s: %s' % (name, ex.applied, '; '.join(bad[:3])),
                         dict(suite=name, plan=ex.plan, events=ex.events, results=[lifecycle.info_tuple(i) for i in ex.results]))
    if mode == 'k':
        _, plans = lifecycle.first_level(suite, acts_k)
        for i, p in enumerate(plans):
            if i % n == k:
                lifecycle.explore(suite, acts_k, 1, visit, start_plan=p)
        return
    if mode == 'mixb':
        # second deviation only at user code, not in hooks
        def acts2(nm, depth):
            return 'AES' + 'K' if depth == 0 else ('K' if not nm.startswith('hook:') or nm == 'hook:test_start' else '')
    else:
        def acts2(nm, depth):
            return 'AESe' + 'K' if depth == 0 else 'EKS'
    _, plans = lifecycle.first_level(suite, acts2)
    for i, p in enumerate(plans):
        if i % n == k:
            lifecycle.explore(suite, acts2, 2, visit, start_plan=p)


def saved_for_resuming(ex, suite, good):
    d = lifecycle.suite_dir(suite)
    try:
        tests = resuming.get_tests_from_previous_session(ex.session_id, get_successful_tests=good)
    except resuming.CannotResume as e:
        return Counter([str(e)])
    return Counter(strip(x.file_name, d) + ':' + x.address_in_file + variation(x) for x in tests)


def monitor(ex, ref, suite, st):
    bad = []
    at = None
    hit = set()
    cur = None
    ended = []
    ended_before = []
    seen_hooks = Counter()
    while_tests = False        # the (first) interruption landed while tests were running
    begun = []
    session_started = session_done = False
    points_after = []
    for k, e in enumerate(ex.events):
        if e[0] == 'hook':
            h, t = e[1], e[2]
            seen_hooks[h, t] += 1
            if h == 'test_start':
                if at is not None:
                    bad.append('%s started after the interruption' % t)
                cur = t
                begun.append(t)
            elif h == 'test_end':
                cur_end = t
                ended.append(t)
                cur = None
            elif h == 'after_session_start':
                session_started = True
            elif h == 'before_session_cleanup':
                pass
            elif h == 'session_end':
                session_done = True
            elif h == 'test_success' and t in hit:
                bad.append('success notified for the interrupted %s' % t)
        elif e[0] == 'point':
            nm, act = e[1], e[2]
            if at is not None and nm.endswith(('.body', 'before')):
                bad.append('%s ran after the interruption' % nm)
            if act in INT and act:
                owner = ended[-1] if nm == 'hook:test_end' and ended else cur
                wide = nm.replace('cleanup:', '').endswith(('.m', '.ms', '.s')) or nm in ('fm.teardown', 'fs.teardown', 'fp.teardown')
                if wide:
                    owner = None
                if owner is not None:
                    hit.add(owner)
                if at is None:
                    at = k
                    # the session's cleanups are part of the last test's turn (this is what its own tests expect)
                    ended_before = [t for t in ended if t != owner and not (t == suite.selected[-1])]
                    while_tests = bool(begun) and not session_done and not nm.startswith(('hook:session', 'hook:after_session', 'cleanup:g1.s', 'cleanup:g2.s', 'cleanup:g3.s'))
        elif e[0] == 'cleanup' and at is not None and k > at and False:
            pass
        st.state((ex.suite, cur, tuple(ended), at is not None, tuple(sorted(hit)), e[:3]))
    res = {i.address: i for i in ex.results}
    refres = {i.address: i for i in ref.results}
    for t in hit:
        if not res[t].interrupted:
            bad.append('%s was hit but is not marked interrupted' % t)
        if res[t].success or res[t].success_skips:
            bad.append('%s was hit but is a success' % t)
        if seen_hooks['test_interrupt', t] != 1:
            bad.append('test_interrupt issued %d times for %s' % (seen_hooks['test_interrupt', t], t))
    nint = sum(v for (h, _), v in seen_hooks.items() if h == 'session_interrupt')
    if while_tests and nint != 1 or nint > 1:
        bad.append('session_interrupt issued %d times' % nint)
    nend = sum(v for (h, _), v in seen_hooks.items() if h == 'session_end')
    if (while_tests or session_started) and nend != 1:
        bad.append('session_end issued %d times' % nend)
    if not ex.exit_code:
        bad.append('exit code %r' % (ex.exit_code,))
    replaced = any(nm in ('hook:session_end', 'hook:after_session_end') for _, nm, _ in ex.applied)
    if not ex.interrupted_app and while_tests and not replaced:
        bad.append('the application does not know it was interrupted')
    if ex.session_success:
        bad.append('the session counts as successful')
    # results of tests which had finished are those of the run without the interruption
    late = {t for idx, nm, act in ex.applied for t in ended_before if nm.replace('cleanup:', '').endswith(('.m', '.ms', '.s'))}
    if len(ex.applied) == 1 or not late:
        for t in ended_before:
            a, b = lifecycle.info_tuple(res[t]), lifecycle.info_tuple(refres[t])
            if a != b:
                bad.append('result of the finished %s changed: %s instead of %s' % (t, a, b))
    # critical cleanups registered before or after still take place, once
    reg = [e[1] for e in ex.events if e[0] == 'reg' and e[3]]
    called = Counter(e[1] for e in ex.events if e[0] == 'cleanup')
    for nm, c in Counter(reg).items():
        if called[nm] != c:
            bad.append('critical cleanup %s registered %d times, called %d times' % (nm, c, called[nm]))
    # the saved state: exactly the tests which did not succeed
    saved, everything = ex.saved
    good = {i.address for i in ex.results if i.success and i.finished}
    expect = Counter(norm(t) for t in suite.selected if t not in good)
    if saved != expect:
        bad.append('saved for resuming: %s, expected %s' % (dict(saved), dict(expect)))
    if everything != Counter(norm(t) for t in suite.selected):
        bad.append('saved altogether: %s' % dict(everything))
    return bad


def strip(p, d):
    return p.replace(d + '/', '')


def variation(x):
    return ''.join('|%s=%s' % (k.split('.')[-1], v) for k, v in sorted((x.variation or {}).items())) if x.variation else ''


INDEX = {'1': 0, '2': 1, 'a': 0, 'b': 1}


def norm(addr):
    """'a.py:test_p2(y=b)' -> the saved form, in which variations consist of value indices"""
    head, paren, rest = addr.partition('(')
    if not paren:
        return addr
    return head + ''.join('|%s=%d' % (k.split('.')[-1], INDEX[v]) for k, v in sorted(x.split('=') for x in rest[:-1].split(', ')))
