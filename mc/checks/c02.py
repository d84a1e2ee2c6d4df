"""C02: one truthful outcome per test; counters, session success, exit code and console summary agree."""
import re
from .. import lifecycle, suites
from ..lifecycle import OUTCOME_HOOKS, Suite

PROPERTY = 'C02'
ALL = 'AEeFfgsSKTCWNBRX'

HEAD = suites.HEAD
R1 = HEAD + '''
@slash.fixture
def ft():
    P('ft.setup')
    yield 1
    P('ft.teardown')

def test_r1(ft):
    P('r1.body')
    reg('r1.c')
    P('r1.tail')

def test_r2():
    P('r2.body')
'''
SUITES = dict(suites.SUITES)
SUITES['pair'] = Suite('pair', {'r.py': R1}, hooks=['test_start', 'test_end', 'before_test_cleanups'])
SUITES['pairc'] = Suite('pairc', {'c.py': suites.CLS, 'b.py': suites.B}, hooks=[])
SUITES['solo'] = Suite('solo', {'c.py': suites.CLS}, hooks=['test_start', 'test_end'])

BODY = re.compile(r'body|setup|teardown|tail|before|after|cleanup')


def acts_one(name, depth):
    return ALL


def acts_two(name, depth):
    return ('A', 'E', 'f', 's', 'S', 'K', 'C', 'F') if depth == 0 else ('A', 'E', 'e', 'S', 'K', 'C')


def acts_three(name, depth):
    return ('A', 'E', 'S', 'K') if depth < 2 else ('A', 'E', 'S', 'K')


PLAN = {
    'quick': [('one', 1, 'one'), ('cls', 1, 'one'), ('two', 1, 'one'), ('avoid', 1, 'one'), ('sg', 1, 'one'), ('mini', 1, 'one'),
              ('pair', 1, 'one'), ('pair', 2, 'two'), ('solo', 2, 'two')],
    'thorough': [('three', 1, 'one'), ('avoid2', 1, 'one'), ('sg', 2, 'two'), ('one', 2, 'two'), ('two', 2, 'two'), ('pair', 3, 'three'), ('pairc', 2, 'two'), ('pairc', 3, 'three'),
                 ('mini', 2, 'one'), ('cls', 2, 'one')],
}
ACTS = dict(one=acts_one, two=acts_two, three=acts_three)


def bound(tier):
    return 'all fault plans: ' + ', '.join('suite %s <=%d faults (alphabet %s)' % x for x in PLAN[tier])


def tasks(tier):
    plan = PLAN['quick'] + (PLAN['thorough'] if tier == 'thorough' else [])
    for name, b, a in plan:
        n = 4 if b == 1 else 24
        for k in range(n):
            yield [name, b, a, k, n]


def run_task(task, st):
    name, b, a, k, n = task
    suite, acts = SUITES[name], ACTS[a]

    def visit(ex):
        bad = monitor(ex, st)
        st.execution((ex.events, ex.exit_code), sample=dict(suite=name, plan=ex.plan, outcomes=[lifecycle.info_tuple(i) for i in ex.results], exit_code=ex.exit_code))
        if bad:
            st.violation('suite %s, faults %s: %s' % (name, ex.applied, '; '.join(bad[:3])),
                         dict(suite=name, plan=ex.plan, events=ex.events, results=[lifecycle.info_tuple(i) for i in ex.results]))
    base, plans = lifecycle.first_level(suite, acts)
    if k == 0:
        visit(base)
    for i, p in enumerate(plans):
        if i % n == k:
            lifecycle.explore(suite, acts, b, visit, start_plan=p)


KIND = dict(A='fail', f='fail', E='err', e='err', F='err', g='err', C='err', W='err', N='err', B='err', X='err', S='skip', s='skip', R='skip', K='int', T='int')
WIDE = ('.m', '.ms', '.s')


def is_wide(name):
    return name.endswith(WIDE) or name in ('fm.teardown', 'fs.teardown')


def monitor(ex, st=None):
    bad = []
    by_addr = {}
    for i in ex.results:
        if i.address in by_addr:
            bad.append('two results for %s' % i.address)
        by_addr[i.address] = i
    allr = ex.results + [ex.global_result]
    cur = ending = avoided = None
    fired = {}            # test -> [(k, kind)]
    notified = {}         # test -> hook
    ended = []
    hard = set()          # tests in which something that unwinds the whole run fired
    maybe, begun = set(), set()
    everything = []       # (kind, owner or None, tag)
    for k, e in enumerate(ex.events):
        if e[0] == 'hook':
            h, t = e[1], e[2]
            avoided = None
            if h == 'test_start':
                cur, ending = t, None
                begun.add(t)
            elif h == 'test_end':
                ending, cur = t, None
                ended.append(t)
            elif h == 'test_avoided':
                avoided = t
            elif h in OUTCOME_HOOKS:
                if t in notified:
                    bad.append('two outcome notifications for %s' % t)
                notified[t] = h
                kinds = {x for x in fired.get(t, [])}
                def want_of(kinds):
                    return 'test_error' if 'err' in kinds else 'test_failure' if 'fail' in kinds else 'test_error' if 'int' in kinds else 'test_skip' if 'skip' in kinds else 'test_success'
                # what happened in wider scopes ending right before this test may be charged to it
                if h not in (want_of(kinds), want_of(kinds | maybe)):
                    bad.append('%s notified for %s after %s (expected %s)' % (h, t, sorted(kinds), want_of(kinds)))
                maybe = set()
        elif e[0] == 'point' and e[2]:
            name, act, idx = e[1], e[2], e[3]
            kind = KIND[act]
            if name == 'hook:test_end':
                owner = ending
            elif name == 'hook:test_avoided':
                owner = avoided
            elif is_wide(name.replace('cleanup:', '')) or name.startswith('hook:') and cur is None:
                owner = None
            else:
                owner = cur
            if owner is not None:
                fired.setdefault(owner, []).append(kind)
                if act in 'KTBX':
                    hard.add(owner)
            elif is_wide(name.replace('cleanup:', '')):
                maybe.add(kind)
            everything.append((kind, owner, act, 'p%d' % idx, name))
        if st is not None:
            st.state((ex.suite, cur, ending, tuple(sorted(fired.items())), tuple(sorted(notified.items())), e[:2]))
    # --- nothing lost, nothing twice, right place
    attr = dict(err='errors', fail='failures', skip='skips')
    cached_in = set()
    for kind, owner, act, tag, name in everything:
        if kind == 'int':
            if owner is not None and not by_addr[owner].interrupted:
                bad.append('%s was interrupted (%s) but not marked so' % (owner, name))
            if not (ex.global_result.interrupted or any(i.interrupted for i in ex.results)):
                bad.append('the interruption at %s is recorded nowhere' % name)
            continue
        if act == 'C':
            word = 'cached'
            if owner in cached_in:
                continue
            cached_in.add(owner)
        elif act == 'X':
            word = '0'
        else:
            word = tag
        hits = [(i, at) for i in allr for at in ('errors', 'failures', 'skips') for m in getattr(i, at) if m.split() and m.split()[-1] == word]
        if act in 'CX':
            hits = [x for x in hits if owner is None or x[0].address == owner]
        if len(hits) != 1 and not (act in 'CX' and owner is None and hits):
            bad.append('%s at %s recorded %d times' % (act, name, len(hits)))
            continue
        i, at = hits[0]
        if at != attr[kind]:
            bad.append('%s at %s recorded among %s' % (act, name, at))
        if owner is not None and i.address != owner:
            bad.append('%s at %s of %s recorded in %s' % (act, name, owner, i.address))
    nrec = sum(len(i.errors) + len(i.failures) for i in allr)
    nexp = len([x for x in everything if x[0] in ('err', 'fail')])
    if nrec > nexp:
        bad.append('%d errors and failures recorded, %d happened: %s' % (nrec, nexp, [i.errors + i.failures for i in allr]))
    if sum(len(i.skips) for i in ex.results if i.started) + len(ex.global_result.skips) > len([x for x in everything if x[0] == 'skip']):
        bad.append('skips recorded which never happened')
    # --- classification of every result
    for i in ex.results:
        if i.is_error != bool(i.errors) or i.is_failure != bool(i.failures) or i.is_just_failure != (bool(i.failures) and not i.errors) \
                or i.is_skip != bool(i.skips) or i.is_not_run != (not i.started and not i.errors and not i.failures):
            bad.append('predicates of %s do not follow from its content' % i.address)
        clean = not (i.errors or i.failures or i.interrupted)
        if i.success != (clean and not i.skips and i.started) or i.success_skips != (clean and (bool(i.skips) or i.started)):
            bad.append('success of %s does not follow from its content' % i.address)
        kinds = set(fired.get(i.address, ()))
        if bool(i.errors) != ('err' in kinds) and not any(x[1] is None and x[0] == 'err' for x in everything):
            bad.append('%s has errors=%s after %s' % (i.address, i.errors, sorted(kinds)))
        if bool(i.failures) != ('fail' in kinds) and not any(x[1] is None and x[0] == 'fail' for x in everything):
            bad.append('%s has failures=%s after %s' % (i.address, i.failures, sorted(kinds)))
        if i.interrupted != ('int' in kinds) and not any(x[1] is None and x[0] == 'int' for x in everything):
            bad.append('%s interrupted=%s after %s' % (i.address, i.interrupted, sorted(kinds)))
        if i.address in ended and i.address not in notified and i.address not in hard:
            bad.append('%s ended without an outcome notification' % i.address)
        if i.address in begun and i.address not in ended:
            bad.append('%s is started but never ended' % i.address)
        if i.started and not i.finished and clean and not i.skips:
            bad.append('%s is clean but not finished' % i.address)
    # --- totals
    c = ex.counts
    T = ex.results
    want = dict(total=len(T), errors=sum(1 for i in allr if i.errors), failures=sum(1 for i in allr if i.failures and not i.errors),
                skipped=sum(1 for i in allr if i.skips), skipped_run=sum(1 for i in allr if i.skips and i.started),
                success=sum(1 for i in T if i.started and i.finished and not (i.errors or i.failures or i.skips or i.interrupted)),
                started=sum(1 for i in T if i.started), not_run=sum(1 for i in T if not i.started and not i.errors and not i.failures))
    for name, v in want.items():
        if c[name] != v:
            bad.append('counter %s is %d, the results say %d' % (name, c[name], v))
    g = ex.global_result
    ok = not (g.errors or g.failures or g.interrupted) and all(not (i.errors or i.failures or i.interrupted) and (i.started or i.skips) for i in T)
    if ex.session_success != ok:
        bad.append('session success is %s, the results say %s' % (ex.session_success, ok))
    strict = ok and not g.skips and all(i.started and not i.skips for i in T)
    if ex.session_success_strict != strict:
        bad.append('strict session success is %s, the results say %s' % (ex.session_success_strict, strict))
    harmful = [x for x in everything if x[0] != 'skip']
    if ex.exit_code == 0 and (harmful or not ok):
        bad.append('exit code 0 although %s' % ([x[2:] for x in harmful] or 'the session was not successful'))
    if ex.exit_code != 0 and not harmful and all(x[1] is not None for x in everything):
        bad.append('exit code %r although nothing failed' % (ex.exit_code,))
    m = re.search(r'Session ended\. (\d+) successful, (\d+) skipped, (\d+) failed, (\d+) erroneous\.(?: (\d+) not run\.)?', ex.report)
    late = any(x[4] in ('hook:session_end', 'hook:after_session_end') for x in everything)
    if m and not late:
        have = tuple(int(x or 0) for x in m.groups())
        exp = (want['success'], want['skipped_run'], want['failures'], want['errors'], want['not_run'])
        if have != exp:
            bad.append('console summary says %s, the results say %s' % (have, exp))
    if not m and not everything:
        bad.append('no console summary')
    return bad
