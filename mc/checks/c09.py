"""C09: sessions with every outcome vector, resumed and rerun for real with every priority / filter flag, repeatedly, and histories of
sessions in several folders - compared with a model of the saved states."""
import itertools, os
from datetime import datetime, timedelta
from .. import env, world
from ..world import Recorder, fresh_dir, write_tree
import slash
from slash import resuming
from slash.ctx import context

PROPERTY = 'C09'
ASSUMPTIONS = ['the test files do not change between the session and its resuming', 'only the local resume database is used (no Backslash plugin)']
MINIMUMS = {'resumed': 1000, 'rerun': 300, 'repeats': 50, 'unreached': 50}

HEAD = '''import slash
from mc.checks import c09
'''


def fn(name, deco='', arg='', body=''):
    return '%sdef %s(%s):\n    c09.BODY(%r, %s)\n%s\n' % (deco, name, arg, name, arg or None, body)


class Layout(object):
    """files, command line, and the instances it selects, in order: (file, address in file, values)"""
    def __init__(self, name, files, instances, args=None, config=None, skipping=(), argv=()):
        self.name, self.files, self.instances = name, files, instances
        self.args = args or sorted(f for f in files if f.endswith('.py') and not f.startswith('.'))
        self.config = config or {}
        self.skipping = skipping       # indices of instances which skip by themselves
        self.argv = list(argv)


def A(f, *names):
    return [(f, n, ()) for n in names]


P12 = "@slash.parametrize('x', [1, 2])\n"
LAYOUTS = [
    Layout('plain', {'a.py': HEAD + fn('test_1') + fn('test_2') + fn('test_3')}, A('a.py', 'test_1', 'test_2', 'test_3')),
    Layout('param', {'a.py': HEAD + fn('test_p', P12, 'x') + fn('test_q')},
           [('a.py', 'test_p', (1,)), ('a.py', 'test_p', (2,)), ('a.py', 'test_q', ())]),
    Layout('class', {'a.py': HEAD + '''
class T(slash.Test):
    @slash.parametrize('x', ['u', 'v'])
    def before(self, x):
        self.x = x
    def test_m(self):
        c09.BODY('T.test_m', self.x)

@slash.fixture
@slash.parametrize('y', [(1, 2), None])
def inner(y):
    return y

@slash.fixture
def outer(inner):
    return inner

def test_f(outer):
    c09.BODY('test_f', outer)
'''}, [('a.py', 'T.test_m', ('u',)), ('a.py', 'T.test_m', ('v',)), ('a.py', 'test_f', ((1, 2),)), ('a.py', 'test_f', (None,))]),
    Layout('files', {'a.py': HEAD + fn('test_1'), 'd/a.py': HEAD + fn('test_1') + fn('test_11')},
           A('a.py', 'test_1') + A('d/a.py', 'test_1', 'test_11'), args=['a.py', 'd']),
    Layout('repeat', {'a.py': HEAD + fn('test_r', '@slash.repeat(2)\n') + fn('test_s')}, A('a.py', 'test_r', 'test_r', 'test_s')),
    Layout('repeat-each', {'a.py': HEAD + fn('test_1') + fn('test_p', P12, 'x')},
           A('a.py', 'test_1', 'test_1') + [('a.py', 'test_p', (1,)), ('a.py', 'test_p', (1,)), ('a.py', 'test_p', (2,)), ('a.py', 'test_p', (2,))],
           argv=['--repeat-each', '2']),
    Layout('repeat-all', {'a.py': HEAD + fn('test_1') + fn('test_2')}, A('a.py', 'test_1', 'test_2', 'test_1', 'test_2'), argv=['--repeat-all', '2']),
    Layout('requires', {'a.py': HEAD + fn('test_1') + fn('test_2', "@slash.requires(lambda: False)\n") + fn('test_3')},
           A('a.py', 'test_1', 'test_2', 'test_3'), skipping=[1]),
    Layout('twice', {'a.py': HEAD + fn('test_1') + fn('test_2')}, A('a.py', 'test_1', 'test_1', 'test_2'), args=['a.py:test_1', 'a.py']),
    Layout('backwards', {'a.py': HEAD + fn('test_1') + fn('test_2'), 'b.py': HEAD + fn('test_1')},
           A('b.py', 'test_1') + A('a.py', 'test_2', 'test_1'), args=['b.py', 'a.py:test_2', 'a.py:test_1']),
    Layout('autouse', {'slashconf.py': HEAD + "@slash.fixture(autouse=True)\n@slash.parametrize('z', ['%s', 2])\ndef au(z):\n    slash.g.z = z\n",
                       'a.py': HEAD + "def test_1():\n    c09.BODY('test_1', slash.g.z)\n\n@slash.parametrize(('k', 'l'), [(1, 'a') // slash.param('one'), (2, \"b'\")])\ndef test_2(k, l):\n    c09.BODY('test_2', (slash.g.z, k, l))\n"},
           [('a.py', 'test_1', ('%s',)), ('a.py', 'test_1', (2,)), ('a.py', 'test_2', (('%s', 1, 'a'),)), ('a.py', 'test_2', (('%s', 2, "b'"),)),
            ('a.py', 'test_2', ((2, 1, 'a'),)), ('a.py', 'test_2', ((2, 2, "b'"),))], args=['a.py']),
]
BYNAME = {l.name: l for l in LAYOUTS}

# ------------------------------------------------------------------------------------------ execution
_STATE = {}


def BODY(name, *values):
    s = _STATE
    i = context.test.__slash__.test_index0
    s['ran'].append((i, name, tuple(v for v in values if v is not None or name == 'test_f')))
    act = s['vector'][i] if i < len(s['vector']) else 'S'
    if act == 'C':
        os.chdir('/')
        return
    for a in act:
        if a == 'A':
            assert False, 'failure'
        if a == 's':
            slash.skip_test('skip')
        if a == 'k':
            context.result.add_skip('added skip')
        if a == 'E':
            raise world.FaultError('error')
        if a == 'K':
            raise KeyboardInterrupt()


class Clock(datetime):
    current = datetime(2024, 1, 1)

    @classmethod
    def now(cls, tz=None):
        return cls.current


resuming.datetime = Clock


class Run(object):
    pass


def execute(layout_dir, layout, argv, vector, resume=False, rerun=False, config=None, files=True, cwd=None):
    """returns (list of instances run in order with their outcome, session id, error)"""
    _STATE.update(vector=vector, ran=[])
    Clock.current += timedelta(seconds=1)
    old = os.getcwd()
    os.chdir(cwd or layout_dir)
    cfg = dict(layout.config)
    cfg.update(config or {})
    try:
        out = world.run_session(cwd or layout_dir, argv, resume=resume, rerun=rerun, config=cfg)
    finally:
        os.chdir(old)
    r = Run()
    r.out = out
    r.id = out.session.id if out.session is not None else None
    r.exit_code = out.exit_code
    r.ran = list(_STATE['ran'])
    r.selected = []
    if out.session is not None:
        res = list(out.session.results.iter_test_results())
        ids = [x.test_metadata.id for x in res]
        if len(set(ids)) != len(ids):
            raise AssertionError('duplicate ids')
        for x in res:
            r.selected.append((os.path.relpath(os.path.join(layout_dir, x.test_metadata.file_path), layout_dir), x.test_metadata.address_in_file,
                               tuple(x.test_metadata.variation.values.items())))
    return r


def model_session(selected, vector, skipping, stop_on_error):
    """saved state of a session: list of (instance, status)"""
    states = []
    stopped = interrupted = False
    for i, inst in enumerate(selected):
        act = vector[i] if i < len(vector) else 'S'
        if stopped or interrupted:
            states.append((inst, 'planned'))
            continue
        if inst in skipping:
            st = 'skipped'
        elif 'A' in act or 'E' in act:
            st = 'failed'
            stopped = stop_on_error
        elif 'K' in act:
            st = 'failed'
            interrupted = True
        elif 's' in act or 'k' in act:
            st = 'skipped'
        else:
            st = 'success'
        states.append((inst, st))
    return states, interrupted


def model_select(states, flags, rerun=False):
    keep = {'failed', 'skipped', 'planned'}
    if rerun:
        keep.add('success')
    if 'failed-only' in flags:
        keep = {'failed'}
    if 'unstarted-only' in flags:
        keep = {'planned', 'skipped'}
    if 'no-skipped' in flags:
        keep -= {'skipped'}
    sel = [x for x in states if x[1] in keep]
    if 'failed-first' in flags:
        sel = [x for x in sel if x[1] == 'failed'] + [x for x in sel if x[1] != 'failed']
    if 'unstarted-first' in flags:
        sel = [x for x in sel if x[1] == 'planned'] + [x for x in sel if x[1] != 'planned']
    return [x[0] for x in sel]


RESUME_FLAGS = [(), ('failed-first',), ('unstarted-first',), ('failed-only',), ('unstarted-only',), ('no-skipped',), ('unstarted-only', 'no-skipped'),
                ('failed-first', 'no-skipped'), ('unstarted-only', 'unstarted-first')]
RERUN_FLAGS = [(), ('failed-first',), ('unstarted-first',)]


_dirs = {}


def layout_dir(layout):
    k = (os.getpid(), layout.name)
    if k not in _dirs:
        d = fresh_dir('c09')
        write_tree(d, layout.files)
        _dirs[k] = d
    return _dirs[k]


def plain(sel):
    """observed instance -> comparable"""
    return [(f, a, tuple(repr(v) for _, v in vals)) for f, a, vals in sel]


def want_plain(insts):
    out = []
    for f, a, vals in insts:
        flat = []
        for v in vals:
            flat.append(v)
        out.append((f, a, tuple(flat)))
    return out


def same(observed, ran, expected, skipping):
    """observed: selected instances (metadata); ran: bodies; expected: model instances.  Bodies name the real values."""
    obs_names = [(f, a) for f, a, _ in observed]
    exp_names = [(f, a) for f, a, _ in expected]
    if obs_names != exp_names:
        return 'tests run: %s, expected: %s' % (obs_names, exp_names)
    for i, name, vals in ran:
        f, a, ev = expected[i]
        v = vals
        if (name, tuple(v)) != (a, tuple(ev)):
            return 'run %d executed %s%r, expected %s%r' % (i, name, v, a, ev)
    want_ran = [i for i, x in enumerate(expected) if x not in skipping]
    return None if [i for i, _, _ in ran] == want_ran[:len(ran)] else 'bodies executed: %s, expected %s' % ([i for i, _, _ in ran], want_ran)


def read_back(session_id, flags, rerun):
    slash.config.backup()
    try:
        slash.config.assign_path('run.resume_state_path', world.resume_dir())
        for f in flags:
            slash.config.assign_path('resume.' + f.replace('-', '_'), True)
        return [(x.file_name, x.address_in_file) for x in resuming.get_tests_from_previous_session(session_id, get_successful_tests=rerun)]
    except resuming.CannotResume:
        return []
    finally:
        slash.config.restore()


def history(layout, vector, stop, st, depth, tier, index=0):
    d = layout_dir(layout)
    skipping = {layout.instances[i] for i in layout.skipping}
    argv = [os.path.join(d, a) for a in layout.args] + layout.argv + (['-x'] if stop else [])
    r = execute(d, layout, argv, vector)
    bad = []
    if r.id is None or not r.selected:
        st.violation('%s: the session did not run: %s' % (layout.name, r.out.report.getvalue()[-500:]), dict(layout=layout.name))
        return
    states, interrupted = model_session(layout.instances, vector, skipping, stop)
    nobs = len(r.selected)
    msg = same(r.selected, r.ran, layout.instances[:nobs], skipping)
    if msg:
        st.violation('%s %s: %s' % (layout.name, vector, msg), dict(layout=layout.name, vector=vector))
        return
    if layout.name.startswith('repeat'):
        st.count('repeats')
    if any(s == 'planned' for _, s in states):
        st.count('unreached')
    st.state((layout.name, tuple(s for _, s in states)))

    def follow(sid, states, trail, depth, flagsets, rerun):
        for flags in flagsets:
            expected = model_select(states, flags, rerun)
            for v2 in ([()] if depth == 1 or not expected else [('A',) + ('S',) * (len(expected) - 1), ('S',) * (len(expected) - 1) + ('s',), ('S', 'K')]):
                r2 = execute(d, layout, [sid] + ['--' + f for f in flags], v2, resume=not rerun, rerun=rerun)
                st.count('rerun' if rerun else 'resumed')
                states2, intr2 = model_session(expected, v2, skipping, False)
                n = len(r2.selected) if intr2 else len(expected)
                msg = same(r2.selected, r2.ran, expected[:n], skipping)
                if msg is None and not expected and r2.ran:
                    msg = 'ran %s, nothing to run' % r2.ran
                what = '%s%s' % (trail, ' %s%s' % ('rerun' if rerun else 'resume', ' ' + ' '.join(flags) if flags else ''))
                st.execution((layout.name, what, v2, [s for _, s in states], r2.ran), sample=dict(layout=layout.name, vector=vector, then=what, ran=r2.ran))
                st.transitions += 1
                if msg:
                    st.violation('%s, outcomes %s%s (saved %s),%s: %s' % (layout.name, '/'.join(vector), ' -x' if stop else '', [s for _, s in states], what, msg),
                                 dict(layout=layout.name, vector=vector, stop=stop, then=what, ran=r2.ran, report=r2.out.report.getvalue()[-600:]))
                    return False
                if depth > 1 and expected:
                    if not follow(r2.id, states2, what, depth - 1, [(), ('failed-first',)] if tier == 'quick' else RESUME_FLAGS[:6], False):
                        return False
        return True
    # what is read back, under every combination of flags
    for rerun, flagsets in ((False, RESUME_FLAGS), (True, RERUN_FLAGS)):
        for flags in flagsets:
            got = read_back(r.id, flags, rerun)
            exp = [(f, a) for f, a, _ in model_select(states, flags, rerun)]
            st.transitions += 1
            st.count('read back')
            if [(os.path.relpath(f, d), a) for f, a in got] != exp:
                st.violation('%s, outcomes %s%s (saved %s): %s %s selects %s, expected %s' % (layout.name, '/'.join(vector), ' -x' if stop else '', [s for _, s in states],
                             'rerun' if rerun else 'resume', ' '.join(flags), got, exp), dict(layout=layout.name, vector=vector, stop=stop, flags=flags))
                return
    # real sessions
    if tier == 'thorough':
        fl, rf = RESUME_FLAGS, RERUN_FLAGS
    else:
        fl, rf = [()] + [RESUME_FLAGS[1 + index % (len(RESUME_FLAGS) - 1)]], [RERUN_FLAGS[index % len(RERUN_FLAGS)]]
    if not follow(r.id, states, '', 1, fl, False):
        return
    if not follow(r.id, states, '', 1, rf, True):
        return
    if depth > 1:
        if not follow(r.id, states, '', depth, [()], False):
            return
        if not follow(r.id, states, '', depth, [()], True):
            return


def vectors(layout, tier):
    n = len(layout.instances)
    letters = ['S', 'A', 's', 'kA'] if n <= 3 else ['S', 'A', 's']
    if n > 4:
        letters = ['S', 'A']
    for v in itertools.product(letters, repeat=n):
        yield v, False
    for v in itertools.product(['S', 'A', 's'] if n <= 4 else ['S', 'A'], repeat=n):
        if 'A' in v[:-1] and v.index('A') == max([i for i, x in enumerate(v) if x != 'S']):
            yield v, True
    for i in range(n):
        for pre in itertools.product(['S', 'A', 's'] if tier == 'thorough' and n <= 4 else ['S', 'A'] if n <= 4 else ['S'], repeat=i):
            yield pre + ('K',), False
            if tier == 'thorough' or i == n - 1:
                yield pre + ('kK',), False
    yield ('E',), False
    yield ('C',) + ('A',) * (n - 1), False


# ------------------------------------------------------------------------------------------ histories over folders
OPS = ['runA', 'failA', 'failB', 'brokenA', 'missA', 'resumeA', 'resumeB', 'rerunA', 'resume-first', 'age', 'ret0', 'both']
HL = Layout('hist', {'a.py': HEAD + fn('test_1') + fn('test_2'), 'b.py': HEAD + fn('test_3') + fn('test_4'), 'broken.py': 'raise Exception()\n'}, [])


def hist_dirs():
    k = (os.getpid(), 'hist')
    if k not in _dirs:
        ds = []
        base = fresh_dir('c09h')
        for n in ('suite', 'suite2'):       # the path of one is the beginning of the other's
            d = os.path.join(base, n)
            os.makedirs(d)
            write_tree(d, HL.files)
            ds.append(d)
        _dirs[k] = ds
    return _dirs[k]


def run_history(ops, st):
    dirs = hist_dirs()
    world.wipe_resume()
    sessions = []       # dicts: id, dir, time, states
    trail = []
    for n, op in enumerate(ops):
        cfg = {}
        where = 1 if op.endswith('B') else 0
        if op == 'age':
            # together nearly, or just over, the default retention period
            Clock.current += timedelta(days=10) - timedelta(seconds=40)
            continue
        resume = op.startswith('resume')
        rerun = op.startswith('rerun')
        fails = op.startswith('fail')
        source = []
        sel = None
        if op in ('runA', 'failA', 'ret0'):
            sel = A('a.py', 'test_1', 'test_2')
            args = ['a.py']              # relative on purpose
        elif op == 'failB':
            sel = A('b.py', 'test_3', 'test_4')
            args = ['b.py']
        elif op == 'brokenA':
            sel, args = [], ['broken.py']
        elif op == 'missA':
            sel, args = [], ['nosuch.py']
        elif op == 'resume-first':
            args = [sessions[0]['id'] if sessions and sessions[0]['id'] else 'nosuchsession']
            source = sessions[:1]
        elif op == 'both':
            # two sessions by name
            source = [s for s in sessions if s['states']][:2]
            resume = True
            args = [s['id'] for s in source]
            if not args:
                continue
        else:
            args = []
            cand = [s for s in sessions if s['dir'] == where and s['states']]
            source = cand[-1:]
        if op == 'ret0':
            cfg['resume.state_retention_days'] = 1
        vector = ('S', 'A') if (fails or op == 'ret0') else (('S', 'S') if op == 'runA' else ('A',))
        # which files a resumed session reads depends on where it was run, not on where it is resumed
        base = dirs[where]
        r = execute(base, HL, list(args), vector, resume=resume, rerun=rerun, config=cfg, cwd=dirs[where])
        error = r.exit_code != 0 and not r.selected
        if resume or rerun:
            if not source or any(s.get('gone') or not s['states'] for s in source):
                if r.ran or not error:
                    return st.violation('history %s: %s of a session without saved tests ran %s, exit code %s' % (ops, op, r.ran, r.exit_code), dict(ops=ops))
                sel = None
            else:
                sel = []
                for s in source:
                    sel += [(s['dir'], i) for i in model_select(s['states'], (), rerun)]
        else:
            sel = [(where, i) for i in sel]
        if sel is not None:
            got = []
            for x in (r.out.session.results.iter_test_results() if r.out.session is not None else ()):
                p = os.path.realpath(os.path.join(base, x.test_metadata.file_path))
                w = [i for i, dd in enumerate(dirs) if p.startswith(os.path.realpath(dd) + os.sep)]
                got.append((w[0] if w else None, (os.path.basename(p), x.test_metadata.address_in_file, ())))
            st.execution((ops[:n + 1], got), sample=dict(ops=ops[:n + 1], ran=[i[1][1] for i in got]))
            st.state(tuple((s['dir'], tuple(x[1] for x in s['states']), bool(s.get('gone'))) for s in sessions))
            st.count('histories')
            if got != sel:
                return st.violation('history %s: %s ran %s, expected %s: %s' % (ops[:n + 1], op, got, sel, r.out.report.getvalue()[-300:]), dict(ops=ops))
            states, _ = model_session(sel, vector, (), False)
            states = [(i[1] if isinstance(i[0], int) else i, s) for i, s in states]
        else:
            states = []
        sess = dict(id=r.id, dir=where, time=Clock.current, states=states)
        # a resumed session consisting of several folders' tests keeps them under its own folder
        if sel and len({w for w, _ in sel}) > 1 or (sel and sel[0][0] != where):
            sess['foreign'] = [w for w, _ in sel]
        sessions.append(sess)
        days = 1 if op == 'ret0' else 10
        for s in sessions:
            if Clock.current - s['time'] > timedelta(days=days):
                s['gone'] = True
                s['states'] = []
        # what is forgotten, and what is not
        for s in sessions:
            if not s.get('foreign'):
                left = len(resuming.get_tests_locally(s['id'])) if s['id'] else 0
                if left != len(s['states']):
                    return st.violation('history %s: %d tests of a session are saved, expected %d' % (ops[:n + 1], left, len(s['states'])), dict(ops=ops))
        if any(s.get('foreign') for s in sessions):
            return      # tests of another folder: their later resuming is covered by shorter histories


def bound(tier):
    return ('%d suite layouts (parametrized, class, fixtures, repeats, several files, requirements); all outcome vectors, -x, interruption at each test; each resumed with %d flag sets, rerun with %d, '
            'and resumed again to depth %d; all histories of %d operations out of %d over two folders' % (len(LAYOUTS), len(RESUME_FLAGS), len(RERUN_FLAGS), 3 if tier == 'thorough' else 2, 4 if tier == 'thorough' else 3, len(OPS)))


def tasks(tier):
    for l in LAYOUTS:
        n = len(list(vectors(l, tier)))
        for k in range(0, n, 8):
            yield ['vectors', l.name, k, 8, tier]
    for a in OPS:
        for b in OPS:
            yield ['hist', [a, b], 2 if tier == 'thorough' else 1]


def run_task(task, st):
    if task[0] == 'vectors':
        _, name, k, n, tier = task
        layout = BYNAME[name]
        world.wipe_resume()
        for i, (v, stop) in enumerate(vectors(layout, tier)):
            if k <= i < k + n:
                deep = tier == 'thorough' or i % 6 == 0
                history(layout, v, stop, st, (3 if tier == 'thorough' and len(layout.instances) <= 3 else 2) if deep else 1, tier, i)
                if st.violations:
                    return
        return
    for tail in itertools.product(OPS, repeat=task[2]):
        run_history(list(task[1]) + list(tail), st)
        if st.violations:
            return
