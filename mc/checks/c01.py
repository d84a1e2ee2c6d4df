"""C01: cleanups.  Static instrumented files read the *program* (which cleanups get registered where, with which
scope and flag) from PROG; fault plans decide what bodies, hooks, fixtures and cleanups do."""
import itertools
from .. import lifecycle, suites_rt
from ..lifecycle import Suite

PROPERTY = 'C01'

HEAD = '''
import slash
from mc.world import P
from mc.suites_rt import site
'''
A = HEAD + '''
@slash.fixture
def ft():
    site('ft')
    P('ft')
    yield 1

@slash.fixture(scope='module')
def fm():
    site('fm')
    P('fm')
    yield 1

@slash.fixture(scope='session')
def fs():
    site('fs')
    P('fs')
    yield 1

site('import:a')

def test_a1(ft, fm, fs):
    P('a1.body')
    site('a1')
    P('a1.tail')

def test_a2():
    site('a2')
    P('a2.tail')
'''
B = HEAD + '''
site('import:b')

class TestB(slash.Test):
    def before(self):
        site('b1.before')
    def after(self):
        site('b1.after')
    def test_b1(self):
        site('b1')
        P('b1.tail')
'''


def _site_hook(name):
    def body(rec):
        t = lifecycle.cur_test()
        suites_rt.site(name + (':' + t.split('test_')[-1] if t else ''))
    return body


HOOK_BODY = {n: _site_hook(n) for n in ('session_start', 'test_start', 'before_test_cleanups', 'test_end', 'before_session_cleanup')}
SUITE3 = Suite('c01-3', {'a.py': A, 'b.py': B}, hook_body=HOOK_BODY,
               hooks=['session_start', 'test_start', 'before_test_cleanups', 'test_end', 'before_session_cleanup', 'test_success', 'test_error'])

SCOPES = (None, 'module', 'session')
FLAGS = ('', 'critical', 'success_only')


def R(name, scope=None, flag='', nested=()):
    return [name, scope, flag, [list(n) for n in nested]]


def dense(prefix, rev=False, nested=True):
    out = []
    combos = [(s, f) for s in SCOPES for f in FLAGS]
    if rev:
        combos.reverse()
    for s, f in combos:
        n = '%s_%s_%s' % (prefix, s or 'imp', f[:4] or 'ord')
        out.append(R(n, s, f, [R(n + 'N', None, '')] if nested and f == '' else ()))
    return out


def programs(tier):
    """(name, prog, bound, first-level actions)"""
    progs = []
    # every single registration, at every site
    sites = ['import:a', 'import:b', 'session_start', 'test_start:a1', 'test_start:b1', 'ft', 'fm', 'fs', 'a1', 'a2', 'b1', 'b1.before', 'b1.after',
             'before_test_cleanups:a1', 'before_test_cleanups:b1']
    for s in sites:
        for sc in SCOPES + ('test',):
            if (s == 'session_start' or s.startswith('import')) and sc is not None:
                continue
            for f in FLAGS:
                progs.append(('single', {s: [R('x', sc, f)], 'a2': [R('y')]}, 1, 'small'))
    for s in ('test_end:a1', 'test_end:a2', 'test_end:b1', 'before_session_cleanup:b1'):
        for sc in ('module', 'session'):
            for f in FLAGS:
                progs.append(('single', {s: [R('x', sc, f)]}, 1, 'small'))
    # nested registration: outer scope/flag x inner scope/flag
    for s in ('a1', 'b1'):
        for sc, f, sc2, f2 in itertools.product(SCOPES, FLAGS, SCOPES, FLAGS):
            progs.append(('nested', {s: [R('z'), R('x', sc, f, [R('n', sc2, f2)])]}, 0 if tier == 'quick' else 1, 'small'))
    # dense programs: every scope/flag combination at once from several sites
    d1 = {'session_start': [R('s1'), R('s2', None, 'critical'), R('s3', None, 'success_only'), R('s4')],
          'a1': dense('a1'), 'b1': dense('b1', True)}
    d2 = {'ft': dense('ft', nested=False), 'fm': dense('fm', nested=False), 'fs': dense('fs', nested=False),
          'test_start:a2': dense('ts', nested=False), 'a2': [R('q1'), R('q2', None, 'critical')]}
    d3 = {'before_test_cleanups:a1': dense('bt', nested=False), 'test_end:a1': [R('te1', 'module'), R('te2', 'session', 'critical')],
          'before_session_cleanup:b1': [R('bs1', 'session'), R('bs2', 'module', 'critical')],
          'b1.before': [R('bb')], 'b1': [R('bc')], 'b1.after': [R('ba')]}
    d4 = {'a1': [R('m1', 'module'), R('m2', 'module', 'critical'), R('s1', 'session'), R('s2', 'session', 'critical'), R('t1'), R('t2', None, 'critical'), R('t3')]}
    d6 = {'import:a': [R('i1'), R('i2', None, 'critical'), R('i3', None, 'success_only'), R('i4')], 'import:b': [R('i5'), R('i6', None, 'critical')],
          'session_start': [R('s1'), R('s2', None, 'critical')], 'a1': [R('t1')]}
    d5 = {'a2': [R('o%d' % i) for i in range(4)], 'b1': [R('p%d' % i, None, 'critical') for i in range(3)], 'session_start': [R('g1', None, 'critical'), R('g2')]}
    if tier == 'quick':
        progs += [('dense1', d1, 1, 'full'), ('dense2', d2, 1, 'full'), ('dense3', d3, 1, 'full'), ('dense4', d4, 2, 'two'), ('dense5', d5, 1, 'full'), ('dense6', d6, 1, 'full')]
    else:
        progs += [('dense1', d1, 2, 'two'), ('dense2', d2, 2, 'two'), ('dense3', d3, 2, 'two'), ('dense4', d4, 2, 'full'), ('dense5', d5, 2, 'full'), ('dense6', d6, 2, 'two'), ('dense4', d4, 3, 'three')]
        # all ordered pairs of registrations made by a1 and a2/b1
        regs = [(sc, f) for sc in SCOPES for f in FLAGS]
        for (r1, r2) in itertools.product(regs, regs):
            progs.append(('pair', {'a1': [R('x', *r1), R('y', *r2)]}, 1, 'full'))
            progs.append(('pair', {'a1': [R('x', *r1)], 'b1': [R('y', *r2)]}, 1, 'full'))
    return progs


def actions_small(name, depth):
    return ('E', 'K') if not name.startswith('cleanup') else ('E', 'K', 'S')


def actions_full(name, depth):
    return ('E', 'A', 'K', 'S', 'e', 'T') if depth == 0 else ('E', 'K', 'S')


def actions_two(name, depth):
    return ('E', 'K') if depth == 0 else (('E', 'K', 'S') if name.startswith('cleanup') else ())


def actions_three(name, depth):
    return ('E', 'K') if depth == 0 else (('E', 'K') if name.startswith('cleanup') else ())


ACTS = {'small': actions_small, 'full': actions_full, 'two': actions_two, 'three': actions_three}


def bound(tier):
    return 'programs=%d; fault plans of at most the stated number of faults each' % len(programs(tier))


def tasks(tier):
    progs = programs(tier)
    light = [p for p in progs if p[2] <= 1 and not p[0].startswith('dense')]
    n = 8
    for i in range(0, len(light), n):
        yield ['light', tier, [progs.index(p) for p in light[i:i + n]], None]
    for i, p in enumerate(progs):
        if p in light:
            continue
        for k in range(16):
            yield ['part', tier, [i], [k, 16]]


def run_task(task, st):
    _, tier, idxs, part = task
    progs = programs(tier)
    for i in idxs:
        name, prog, b, acts = progs[i]
        suites_rt.PROG = prog
        acts = ACTS[acts]

        def visit(ex):
            bad = monitor(ex, prog, st)
            st.execution((name, ex.events, ex.exit_code), sample=dict(program=prog, plan=ex.plan, trace=[e for e in ex.events if e[0] in ('reg', 'cleanup')]))
            if bad:
                st.violation('program %s %s, faults %s: %s' % (name, prog, ex.applied, '; '.join(bad[:3])),
                             dict(program=prog, plan=ex.plan, events=ex.events))
        if part is None:
            lifecycle.explore(SUITE3, acts, b, visit)
        else:
            base, plans = lifecycle.first_level(SUITE3, acts)
            if part[0] == 0:
                visit(base)
            for n_, p in enumerate(plans):
                if n_ % part[1] == part[0]:
                    lifecycle.explore(SUITE3, acts, b, visit, start_plan=p)


RAISE_FAIL = ('A', 'E', 'e', 'f', 'F', 'g')
TESTFILE = {'a.py:test_a1': 'a', 'a.py:test_a2': 'a', 'b.py:TestB.test_b1': 'b'}


def monitor(ex, prog, st):
    bad = []
    regs = {}         # name -> dict
    order = []
    calls = {}        # name -> event index
    cur = None        # started, not yet ended test
    phase = None      # of the current test: 'run' | 'cleanup' | 'out'
    started_tests = []
    ended = {}        # test -> index of test_end
    started_at = {}
    cleanup_began = {}    # test -> index of before_test_cleanups
    outcome_at = {}
    fails = []        # (index, test or None) failing events
    interrupt_at = None
    session_end_at = None
    sess_cleanup_at = None
    n = len(ex.events)
    last_test = None
    for k, e in enumerate(ex.events):
        if e[0] == 'point':
            if e[2] in RAISE_FAIL:
                fails.append((k, cur))
            if e[2] in ('K', 'T') and interrupt_at is None:
                interrupt_at = k
        elif e[0] == 'reg':
            _, name, scope, crit, succ, where, ctest = e
            regs[name] = dict(at=k, scope=scope, crit=crit, succ=succ, test=ctest, file=TESTFILE.get(ctest))
            order.append(name)
        elif e[0] == 'cleanup':
            if e[1] in calls:
                bad.append('cleanup %s called twice' % e[1])
            calls[e[1]] = k
        elif e[0] == 'hook':
            h, t = e[1], e[2]
            if h == 'test_start':
                cur, phase = t, 'run'
                last_test = t
                started_tests.append(t)
                started_at[t] = k
            elif h == 'test_end':
                ended[t] = k
                cur = None
            elif h == 'before_test_cleanups':
                cleanup_began.setdefault(t, k)
            elif h in lifecycle.OUTCOME_HOOKS:
                outcome_at.setdefault(t, k)
            elif h == 'session_end':
                session_end_at = k
            elif h == 'before_session_cleanup':
                if sess_cleanup_at is None:
                    sess_cleanup_at = k
        st.state((len(order), tuple(sorted(calls)), cur, phase, len(fails), interrupt_at is not None, e[:2]))
    any_fail = bool(fails)
    for name, r in regs.items():
        c = calls.get(name)
        scope = r['scope']
        t = r['test']
        # --- the window in which the scope ends
        if scope == 'test':
            lo = cleanup_began.get(t, started_at.get(t, 0))
            hi = min(outcome_at.get(t, n), ended.get(t, n))
        elif scope == 'module':
            mine = [x for x in started_tests if TESTFILE[x] == r['file']]
            lo = max([ended.get(x, 0) for x in mine] or [0])
            later = [started_at[x] for x in started_tests if TESTFILE[x] != r['file'] and started_at[x] > r['at']]
            hi = min(later + [n if session_end_at is None else session_end_at])
        else:
            lo = max(list(ended.values()) + [0])
            hi = n if session_end_at is None else session_end_at
        lo = max(lo, r['at'])
        if c is not None and not (lo <= c <= hi):
            bad.append('cleanup %s (scope %s, registered by %s) called outside of the end of its scope (event %d not in %d..%d)' % (name, scope, t, c, lo, hi))
        # --- must it be called?
        failed_before = [f for f in fails if f[1] == t and t is not None and f[0] < lo] if scope == 'test' else \
                        [f for f in fails if f[1] == t and t is not None and f[0] < min(cleanup_began.get(t, n), lo)]
        if interrupt_at is None:
            if r['succ']:
                if c is None and not any_fail:
                    bad.append('success-only cleanup %s not called in a successful run' % name)
                if c is not None and failed_before:
                    bad.append('success-only cleanup %s called although %s did not succeed' % (name, t))
            elif c is None:
                bad.append('cleanup %s (scope %s, by %s) never called' % (name, scope, t))
        else:
            if r['crit']:
                if c is None:
                    bad.append('critical cleanup %s (scope %s, by %s) never called after an interruption' % (name, scope, t))
            elif c is not None and c > interrupt_at:
                bad.append('non-critical cleanup %s called after an interruption' % name)
            elif c is None and not r['succ'] and hi < interrupt_at and hi < n:
                bad.append('cleanup %s of a scope which ended before the interruption never called' % name)
            if r['succ'] and c is not None and failed_before:
                bad.append('success-only cleanup %s called although %s did not succeed' % (name, t))
    # --- LIFO inside one scope instance
    def inst(r):
        return (r['scope'], {'test': r['test'], 'module': r['file']}.get(r['scope']))
    for i, a in enumerate(order):
        if a not in calls:
            continue
        for b in order[i + 1:]:
            if b in calls and inst(regs[a]) == inst(regs[b]) and regs[b]['at'] < calls[a] < calls[b]:
                bad.append('%s called before %s although registered earlier in the same scope' % (a, b))
    # --- every fault raised by a cleanup is recorded exactly once
    for idx, pname, act in ex.applied:
        if not pname.startswith('cleanup:') or act not in ('E', 'A', 'S', 'e'):
            continue
        tag = 'p%d' % idx
        found = 0
        for i in ex.results + [ex.global_result]:
            for m in i.errors + i.failures + i.skips:
                if m.split() and m.split()[-1] == tag:
                    found += 1
        if found != 1:
            bad.append('the fault %s of %s was recorded %d times' % (act, pname, found))
    if (any_fail or interrupt_at is not None) and ex.exit_code == 0:
        bad.append('exit code 0')
    return bad
