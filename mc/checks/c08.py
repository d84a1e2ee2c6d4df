"""C08: early stop and not-run accounting: all outcome vectors x stop flag, against a sequential model."""
import itertools
from .. import lifecycle, suites, suites_rt, world
from ..lifecycle import Suite

PROPERTY = 'C08'

T = '''
import slash
from mc.world import P
from mc.suites_rt import out, req

@slash.parametrize('x', [1])
@slash.exclude('x', [1] if req('%(n)s') == 'x' else [2])
@slash.requires(lambda: req('%(n)s') != 'u')
def test_%(n)s(x):
    out('%(n)s')
'''
TC = '''
import slash
from mc.suites_rt import out, req

class Test_%(n)s(slash.Test):
    @slash.parametrize('x', [1])
    @slash.exclude('x', [1] if req('%(n)s') == 'x' else [2])
    @slash.requires(lambda: req('%(n)s') != 'u')
    def test_%(n)s(self, x):
        out('%(n)s')
'''
# o success, A failure, E error, e added error, f added failure, S skip, s added skip, u unmet requirement, x excluded, F fatal, G added fatal failure,
# c error in the test's own cleanup, m / M error / fatal error in a cleanup of the file, n success-like late added error in test_end, z error in session cleanup,
# d an error added while ending the session
ALPHA = 'oAEeSuxFGcmMzst'
SMALL = 'oESuFmM'
STOP = (None, 'config', 'flag')


def layouts():
    return {
        '1': [['a']], '2': [['a', 'b']], '11': [['a'], ['b']], '3': [['a', 'b', 'c']], '21': [['a', 'b'], ['c']], '12': [['a'], ['b', 'c']], '111': [['a'], ['b'], ['c']],
        '22': [['a', 'b'], ['c', 'd']], '13': [['a'], ['b', 'c', 'd']],
    }


def suite_of(lay):
    files = {}
    for i, names in enumerate(layouts()[lay]):
        files['f%d.py' % i] = ''.join((TC if len(names) == 1 and n == 'b' else T) % dict(n=n) for n in names)
    return Suite('c08-' + lay, files, hooks=[])


PLAN = {
    'quick': [('1', ALPHA), ('2', ALPHA), ('11', ALPHA), ('21', SMALL), ('12', SMALL), ('111', 'oESFM'), ('22', 'oSE'), ('22', 'ouF')],
    'thorough': [('21', ALPHA), ('12', ALPHA), ('22', SMALL), ('13', SMALL), ('111', ALPHA)],
}


def bound(tier):
    return 'all outcome vectors x 2-3 ways of asking to stop: ' + ', '.join('layout %s alphabet %s' % x for x in PLAN['quick'] + (PLAN['thorough'] if tier == 'thorough' else []))


def vectors(lay, alpha):
    n = sum(len(x) for x in layouts()[lay])
    return list(itertools.product(alpha, repeat=n))


def tasks(tier):
    plan = PLAN['quick'] + (PLAN['thorough'] if tier == 'thorough' else [])
    for lay, alpha in plan:
        vs = vectors(lay, alpha)
        for k in range(0, len(vs), 40):
            yield [lay, alpha, k]


def run_task(task, st):
    lay, alpha, k = task
    suite = suite_of(lay)
    for vec in vectors(lay, alpha)[k:k + 40]:
        for stop in ((None, 'flag') if len(vec) > 2 else STOP):
            run_vec(suite, lay, vec, stop, st)


def run_vec(suite, lay, vec, stop, st):
    names = [n for f in layouts()[lay] for n in f]
    suites_rt.OUT = dict(zip(names, vec))
    seen = []
    suite.hook_body = {'test_end': suites_rt.late}
    ex = lifecycle.execute(suite, {}, extra_argv=['-x'] if stop == 'flag' else [], config={'run.stop_on_error': True} if stop == 'config' else None)
    bad = check(ex, lay, vec, stop)
    trace = [(i.address, i.index, i.started, len(i.errors), len(i.failures), len(i.skips)) for i in ex.results]
    for n in range(len(trace)):
        st.state((lay, vec[:n + 1], stop, trace[n][1:]))
    st.execution((lay, vec, stop, trace, ex.complete, ex.exit_code), sample=dict(layout=lay, outcomes=vec, stop=stop, results=trace, complete=ex.complete))
    if bad:
        st.violation('layout %s outcomes %s stop %s: %s' % (lay, ''.join(vec), stop, '; '.join(bad[:3])),
                     dict(layout=lay, vector=vec, stop=stop, results=trace, complete=ex.complete, events=ex.events))


def model(lay, vec, stop):
    """-> list of per-test dict(ran, ...), stopped index, by a sequential reading of the promise."""
    files = layouts()[lay]
    names = [n for f in files for n in f]
    file_of = {n: i for i, f in enumerate(files) for n in f}
    o = dict(zip(names, vec))
    reached, ran = [], []
    bad_session = fatal = False
    late = {}           # file -> list of (name, kind) errors waiting for its end
    open_file = None
    for n in names:
        reached.append(n)
        k = o[n]
        if k not in 'ux':
            if open_file is not None and open_file != file_of[n]:
                for kind in late.pop(open_file, ()):
                    bad_session = True
                    fatal = fatal or kind == 'M'
            open_file = file_of[n]
            ran.append(n)
            if k in 'AEeFGct':
                bad_session = True
            if k in 'FG':
                fatal = True
            if k in 'mM':
                late.setdefault(file_of[n], []).append(k)
            if n == names[-1]:
                for kinds in late.values():
                    bad_session = True
                    fatal = fatal or 'M' in kinds
                if k == 'z' or 'z' in [o[x] for x in ran]:
                    bad_session = True
        if fatal or (stop and bad_session):
            break
    return names, reached, ran, bad_session, fatal


def check(ex, lay, vec, stop):
    bad = []
    names, reached, ran, bad_session, fatal = model(lay, vec, stop)
    got = [i.address.split('test_')[-1].split('(')[0] for i in ex.results]
    if got != names:
        bad.append('results are %s, selected %s' % (got, names))
        return bad
    started = [n for n, i in zip(names, ex.results) if i.started]
    bodies = [e[1] for e in ex.events if e[0] == 'body']
    if bodies != ran:
        bad.append('ran %s, expected %s' % (bodies, ran))
    if started != ran:
        bad.append('results say %s started, expected %s' % (started, ran))
    for pos, (n, i) in enumerate(zip(names, ex.results)):
        if n in reached:
            if i.index != pos:
                bad.append('test %s has index %s, expected %d' % (n, i.index, pos))
        else:
            if not i.is_not_run or i.skips or i.success or i.finished:
                bad.append('unreached %s is not marked as not run' % n)
    avoided = [e[2].split('test_')[-1].split('(')[0] for e in ex.events if e[0] == 'hook' and e[1] == 'test_avoided']
    if avoided != [n for n in reached if n not in ran]:
        bad.append('avoided %s, expected %s' % (avoided, [n for n in reached if n not in ran]))
    if ex.complete and len(reached) != len(names):
        bad.append('declared complete although %s never had a turn' % [n for n in names if n not in reached])
    if not ex.complete and len(reached) == len(names) and not bad_session:
        bad.append('not complete although every test had its turn and nothing went wrong')
    not_run = [n for n in names if n not in ran and n not in avoided] + avoided
    if ex.counts['not_run'] != len([n for n in names if n not in ran]):
        bad.append('not-run counter is %d' % ex.counts['not_run'])
    if ex.counts['total'] != len(names):
        bad.append('%d results' % ex.counts['total'])
    harmless = all(k in 'oSsux' for k in vec)
    if (ex.exit_code == 0) != harmless:
        bad.append('exit code %r' % ex.exit_code)
    return bad
