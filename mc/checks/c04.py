"""C04: real sessions over every small fixture graph (scopes, dependencies, parameters, kinds of teardown) crossed with sequences of
tests and with a fault at every point of the fixtures; the lifetimes of all values are monitored along the trace."""
import itertools, os, shutil
from .. import env, world
from ..world import fresh_dir, write_tree
import slash
from slash.ctx import context

PROPERTY = 'C04'
ASSUMPTIONS = ['cleanups of a value are those registered through this.add_cleanup, and what follows the yield of a generator fixture',
               'values of an interrupted run need not be torn down', 'a fixture already active may notify around tests which do not use it']
MINIMUMS = {'executions': 5000, 'values': 20000, 'shared': 5000, 'recomputed for parameters': 500, 'faulty': 1000}


def current_params():
    """fixture -> value of its parameter in the current test"""
    v = context.test.__slash__.variation if context.test is not None else None
    return {} if v is None else dict(str(x).split('=') for x in v.values.values())


class Trace(object):
    def __init__(self, fault=None):
        self.events, self.fault, self.points = [], fault, []
        self.n = 0

    def new(self, name, param, deps):
        self.n += 1
        v = Value(name, self.n, param, deps)
        return v

    def point(self, *p):
        k = len(self.points)
        self.points.append(p)
        if self.fault is not None and self.fault[0] == k:
            self.events.append(('fault',) + p + (self.fault[1],))
            act = self.fault[1]
            if act == 'E':
                raise ValueError('fault')
            if act == 'A':
                raise AssertionError('fault')
            if act == 'S':
                slash.skip_test('fault')


T = None


class Value(object):
    def __init__(self, name, num, param, deps):
        self.name, self.num, self.param, self.deps = name, num, param, deps

    def __repr__(self):
        return '%s#%d%s' % (self.name, self.num, '' if self.param is None else '=%s' % self.param)


def make(name, this, param, deps, kind):
    t = T
    v = t.new(name, param, deps)
    t.events.append(('compute', v, context.test.__slash__.id, current_params()))
    t.point('before registering', name)

    def teardown(part):
        t.events.append(('teardown', v, part, current_params()))
        t.point('teardown', name, part)
    if kind == 'two':
        this.add_cleanup(lambda: teardown(1))
        this.add_cleanup(lambda: teardown(0))
    elif kind == 'this':
        this.add_cleanup(lambda: teardown(0))
    this.test_start(lambda: t.events.append(('fstart', v, context.test.__slash__.id)))
    this.test_end(lambda: t.events.append(('fend', v, context.test.__slash__.id)))
    if kind != 'yield':
        t.events.append(('registered', v))
    t.point('after registering', name)
    if kind == 'yield':
        t.events.append(('registered', v))
    t.events.append(('computed', v))
    return v


def gen(name, this, param, deps):
    t = T
    v = make(name, this, param, deps, 'yield')
    yield v
    t.events.append(('teardown', v, 0, current_params()))
    t.point('teardown', name, 0)


def BODY(**values):
    t = T
    md = context.test.__slash__
    t.events.append(('body', md.id, values, current_params()))
    t.point('body', md.address_in_file)


def OWN():
    """a test registers cleanups of its own, in all scopes"""
    t, a = T, context.test.__slash__.address_in_file
    for s in SCOPES:
        slash.add_cleanup(lambda s=s: t.point('own cleanup', a, s), scope=s)


HEAD = 'import slash\nfrom mc.checks import c04\n\n'
SCOPES = ['test', 'module', 'session']
PARTS = {'two': (0, 1), 'this': (0,), 'yield': (0,)}


def fixture_src(i, g):
    n = 'f%d' % i
    deps = ['f%d' % j for j in sorted(g['deps'][i])]
    par = g['params'][i]
    args = ', '.join((['p'] if par else []) + deps)
    call = '%r, this, %s, dict(%s)' % (n, 'p' if par else 'None', ', '.join('%s=%s' % (d, d) for d in deps))
    head = '@slash.parametrize("p", %r)\n' % ['%s=%d' % (n, k) for k in range(par)] if par else ''
    deco = '(scope=%r, autouse=%r)\n' % (g['scopes'][i], i in g['auto'])
    if g['kinds'][i] == 'yield':
        return '@slash.yield_fixture' + deco + head + 'def %s(%s):\n    yield from c04.gen(%s)\n\n' % (n, args, call.replace('this', 'slash.context.fixture'))
    return '@slash.fixture' + deco + head + 'def %s(%s):\n    return c04.make(%s, %r)\n\n' % (n, 'this' + (', ' if args else '') + args, call, g['kinds'][i])


def test_src(k, use, form):
    names = ['f%d' % i for i in use]
    kw = ', '.join('%s=%s' % (n, n) for n in names)
    if form == 'class':
        first, rest = names[:1], names[1:]
        return ('class T%d(slash.Test):\n    def before(%s):\n        self.v = dict(%s)\n    def test_m(%s):\n        c04.BODY(%s)\n    def after(%s):\n        pass\n\n' %
                (k, ', '.join(['self'] + first), ', '.join('%s=%s' % (n, n) for n in first), ', '.join(['self'] + rest),
                 ', '.join(['%s=%s' % (n, n) for n in rest] + ['**self.v']), ', '.join(['self'] + names[-1:])))
    if form == 'use':
        return '@slash.use_fixtures(%r)\ndef test_%d(%s):\n    c04.BODY(%s)\n\n' % (names[1:], k, ', '.join(names[:1]), ', '.join('%s=%s' % (n, n) for n in names[:1]))
    return 'def test_%d(%s):\n    c04.BODY(%s)\n%s\n' % (k, ', '.join(names), kw, '    c04.OWN()\n' if form == 'own' else '')


def closure(g, use):
    out, todo = set(), list(use)
    while todo:
        i = todo.pop()
        if i not in out:
            out.add(i)
            todo += g['deps'][i]
    return out


def run(g, tests, split, form, fault, st, argv=()):
    """g: graph; tests: the fixtures each test uses; split: how many tests are in the first file -> the trace"""
    global T
    conf = ''.join(fixture_src(i, g) for i in range(len(g['scopes'])))
    files = {'slashconf.py': HEAD + conf}
    for f, ks in (('a.py', range(split)), ('b.py', range(split, len(tests)))):
        src = ''.join(test_src(k, tests[k], form) for k in ks)
        if src:
            files[f] = HEAD + src
    d = fresh_dir('c04')
    write_tree(d, files)
    T = t = Trace(fault)
    hooks = {'test_start': lambda: t.events.append(('start', context.test.__slash__.id, context.test.__slash__.module_name, context.test.__slash__.address_in_file)),
             'test_end': lambda: t.events.append(('end', context.test.__slash__.id)),
             'session_end': lambda: t.events.append(('session_end',))}
    try:
        out = world.run_session(d, [os.path.join(d, f) for f in files if f != 'slashconf.py'] + list(argv), hooks=hooks)
    finally:
        shutil.rmtree(d, True)
    T = None
    return t, out


def monitor(g, tests, t, out, fault, st):
    """-> [(key or None, problem)]"""
    bad = []
    live = {}          # num -> value, computed or being computed and not completely torn down
    done = {}          # num -> set of parts torn down
    registered, complete = set(), set()
    born = {}          # num -> (test, module visit)
    test = module = None
    visit = 0
    phase = 'out'
    last = {}          # (fixture) -> (scope occurrence, parameters, value) of its last use
    early = set()      # values torn down before their dependents because a parameter changed
    made = {}          # num -> parameters at its computation
    leaked = set()     # values which outlived their scope (reported)
    broken = set()     # values with a failing cleanup
    skipped = None     # the values alive when a teardown was skipped
    started = {}

    def occurrence(scope):
        return {'test': ('t', test), 'module': ('m', visit), 'session': ('s',)}[scope]

    def scope_of(v):
        return g['scopes'][int(v.name[1:])]

    def dependents(v):
        return [w for w in live.values() if v in w.deps.values()]

    def parts(v):
        return PARTS[g['kinds'][int(v.name[1:])]] if v.num in registered else ()

    def lost(v):
        if v.num in broken and done.get(v.num):
            return 'rest'
        if skipped is not None and v.num in skipped:
            return 'skip'
        return None

    def must_be_dead(scopes, when):
        for v in list(live.values()):
            if scope_of(v) in scopes and v.num in registered and born[v.num] != occurrence(scope_of(v)):
                if v.num not in leaked:
                    bad.append((lost(v), '%s is still alive at %s' % (v, when)))
                leaked.add(v.num)

    expected = {}
    for k, use in enumerate(tests):
        for nm in ('test_%d' % k, 'T%d.test_m' % k):
            expected[nm] = closure(g, list(use) + list(g['auto']))
    for e in t.events:
        kind = e[0]
        if kind == 'start':
            _, test, mod, addr = e
            addr = addr.split('(')[0]
            if mod != module:
                module, visit = mod, visit + 1
            need = expected[addr]
            phase = 'run'
            started = {}
            must_be_dead(('test', 'module'), 'the start of %s' % addr)
        elif kind == 'end':
            phase = 'out'
        elif kind == 'compute':
            v = e[1]
            live[v.num] = computing = v
            born[v.num] = occurrence(scope_of(v))
            made[v.num] = [e[3].get('f%d' % m) for m in sorted(closure(g, [int(v.name[1:])]))]
            st.count('values')
            for w in v.deps.values():
                if w.num not in live:
                    bad.append(('early' if w.num in early else None, '%s is computed from %s, which was torn down' % (v, w)))
            if e[2] != test and scope_of(v) == 'test':
                bad.append((None, '%s computed outside of its test' % v))
            others = [w for w in live.values() if w.name == v.name and w is not v and w.num not in leaked]
            if others and not (fault and any(o.num not in complete for o in others)):
                bad.append((None, '%s is computed while %s is alive' % (v, others)))
        elif kind == 'registered':
            registered.add(e[1].num)
        elif kind == 'computed':
            complete.add(e[1].num)
        elif kind == 'teardown':
            _, v, part, params = e
            if part in done.setdefault(v.num, set()):
                bad.append((None, '%s is torn down twice' % v))
            if v.num not in live:
                bad.append((None, '%s is torn down after its end' % v))
            # what remains of a value whose cleanup failed does not count (reported)
            ds = [w for w in dependents(v) if lost(w) is None and w.num not in leaked]
            if ds and not done[v.num]:
                now = [params.get('f%d' % m) for m in sorted(closure(g, [int(v.name[1:])]))]
                if phase == 'run' and now != made[v.num]:
                    early.add(v.num)
                bad.append(('early' if v.num in early else None, '%s is torn down before %s, which depends on it' % (v, ds)))
            if phase == 'run' and [params.get('f%d' % m) for m in sorted(closure(g, [int(v.name[1:])]))] != made[v.num]:
                # its parameters changed: the next value is another one
                if last.pop(v.name, None) is not None:
                    st.count('recomputed for parameters')
            done[v.num].add(part)
            tearing = v.num
            if done[v.num] == set(parts(v)):
                live.pop(v.num, None)
        elif kind == 'fstart':
            started.setdefault(e[1].num, []).append('start')
        elif kind == 'fend':
            started.setdefault(e[1].num, []).append('end')
            if started[e[1].num] != ['start', 'end']:
                bad.append((None, 'notifications of %s around a test: %s' % (e[1], started[e[1].num])))
        elif kind == 'body':
            _, tid, values, params = e
            used = {}
            todo = list(values.values())
            while todo:
                v = todo.pop()
                w = used.setdefault(v.name, v)
                if w is not v:
                    bad.append(('early' if {v.num, w.num} & early else None, 'the test sees both %s and %s' % (v, w)))
                    if w.num in early:
                        used[v.name] = v
                todo += v.deps.values()
            for w in live.values():
                if g['scopes'] and int(w.name[1:]) in need and w.name not in used and w.num in complete:
                    used[w.name] = w
            for i in sorted(need):
                n = 'f%d' % i
                v = used.get(n)
                if v is None:
                    bad.append((None, 'no value of %s is alive in a test needing it' % n))
                    continue
                if v.num in leaked:
                    continue
                if v.num not in live:
                    bad.append(('early' if v.num in early else None, 'the test sees %s, which was torn down' % v))
                    if v.num in early:
                        continue
                if v.param is not None and v.param != '%s=%s' % (n, params.get(n)):
                    bad.append((None, 'the test sees %s with the parameters %s' % (v, params)))
                if started.get(v.num) != ['start']:
                    bad.append((None, 'notifications of %s by the body of the test: %s' % (v, started.get(v.num))))
                pk = tuple(sorted((m, params.get('f%d' % m)) for m in closure(g, [i])))
                occ = occurrence(g['scopes'][i])
                prev = last.get(n)
                if prev is not None and prev[0] == occ:
                    if prev[1] == pk:
                        st.count('shared')
                        if prev[2] is not v:
                            bad.append((None, '%s was computed again (%s) within its scope' % (prev[2], v)))
                    elif prev[2] is v:
                        bad.append((None, '%s outlives the parameters %s' % (v, prev[1])))
                elif prev is not None and prev[2] is v:
                    bad.append((None, '%s outlives its scope' % v))
                last[n] = (occ, pk, v)
        elif kind == 'fault' and e[1] in ('before registering', 'after registering'):
            if computing.num not in registered:
                del live[computing.num]
        elif kind == 'fault' and e[1] == 'teardown':
            broken.add(tearing)
            if e[-1] == 'S':
                skipped = set(live)
    test, visit, module = None, visit + 1, None
    for v in live.values():
        if v.num in registered and v.num not in leaked:
            bad.append((lost(v), '%s is never torn down%s' % (v, ' completely' if done.get(v.num) else '')))
    return bad


def graphs(n, params=(0, 2), autos=True, kinds=('this',)):
    pairs = [(i, j) for i in range(n) for j in range(n) if i > j]
    for scopes in itertools.product(SCOPES, repeat=n):
        for k in range(len(pairs) + 1):
            for es in itertools.combinations(pairs, k):
                if any(SCOPES.index(scopes[j]) < SCOPES.index(scopes[i]) for i, j in es):
                    continue
                for ps in itertools.product(params, repeat=n):
                    for auto in ([()] + [(i,) for i in range(n)] if autos else [()]):
                        for ks in itertools.product(kinds, repeat=n):
                            yield dict(scopes=scopes, deps={i: [j for a, j in es if a == i] for i in range(n)}, params=ps, auto=auto, kinds=ks)


def describe(g, tests, split, form, fault, t):
    fx = ', '.join('f%d(%s)%s%s%s %s' % (i, ', '.join('f%d' % j for j in g['deps'][i]), '' if not g['params'][i] else ' x%d' % g['params'][i],
                                        ' autouse' if i in g['auto'] else '', '', g['scopes'][i]) for i in range(len(g['scopes'])))
    return '%s [%s]; tests using %s, %d in the first file (%s)%s' % (fx, '/'.join(g['kinds']), tests, split, form, '; %s at %s' % (fault[1], t.points[fault[0]]) if fault else '')


def check(g, tests, split, form, fault, st):
    t, out = run(g, tests, split, form, fault, st)
    bad = monitor(g, tests, t, out, fault, st)
    if fault is None:
        errors = [e.message for r in out.session.results.iter_all_results() for e in r.get_errors()] if out.session is not None else [repr(out.raised)]
        if errors or out.exit_code:
            bad.append((None, 'the session failed: %s' % errors[:2]))
        n = sum(1 for e in t.events if e[0] == 'body')
        if n < len(tests):
            bad.append((None, 'only %d tests ran' % n))
    else:
        st.count('faulty')
    text = [repr(e[1:]) if e[0] == 'body' else '%s %s' % (e[0], e[1:2]) for e in t.events]
    st.state(text)
    st.execution((sorted(g.items(), key=str), tests, split, form, fault), sample=dict(case=describe(g, tests, split, form, fault, t), events=len(t.events)))
    if bad:
        report(g, tests, split, form, fault, st, t, bad)
    return t


KEYS = {'early': 'recomputed-before-dependents', 'rest': 'cleanups-after-a-failing-one', 'skip': 'skip-while-tearing-down'}


def report(g, tests, split, form, fault, st, t, bad):
    what = describe(g, tests, split, form, fault, t)
    new = [b for b in bad if b[0] is None]
    key = None if new else KEYS[bad[0][0]]
    st.violation('%s%s: %s' % (key + ': ' if key else '', what, (new or bad)[0][1]), dict(case=what, problems=[b[1] for b in bad[:4]], events=[str(e) for e in t.events][:60]), key=key)


USES2 = [(0,), (1,), (0, 1), (1, 0)]


def cases(tier):
    """-> graph, tests, number of tests in the first file, form, whether faults are injected"""
    deep = tier == 'thorough'
    for g in graphs(2):
        for tests in itertools.product(USES2, repeat=2):
            if len(g['auto']) == 0 or len(set(tests)) == 1 or deep:
                for split in (1, 2):
                    yield g, tests, split, 'args', False
    for g in graphs(2, autos=deep):
        for tests in itertools.product(USES2 if deep else USES2[:3], repeat=3):
            # a fixture used, not used, and used again
            if deep or tests[0] != tests[1]:
                for split in (1, 2, 3) if deep else (2,):
                    yield g, tests, split, 'args', False
    for form in ('class', 'use'):
        for g in graphs(2, autos=False):
            for tests in itertools.product(USES2[2:] if not deep else USES2, repeat=2):
                for split in (1, 2):
                    yield g, tests, split, form, False
    kinds = ('this', 'yield', 'two') if deep else ('yield', 'two')
    for g in graphs(2, params=(0,), autos=False, kinds=kinds):
        for tests in itertools.product(USES2, repeat=2) if deep else [((0, 1), (0,)), ((0, 1), (1,)), ((1,), (1, 0))]:
            for split in (1, 2) if deep else (1,):
                yield g, tests, split, 'args', True
    for g in graphs(2, params=(0, 2), autos=deep, kinds=('this',)):
        if any(g['params']) and (deep or sum(map(bool, g['params'])) == 1 and g['scopes'][0] != 'test'):
            yield g, ((0, 1), (1, 0)), 1, 'args', True
    # a test with cleanups of its own, which may fail
    for g in graphs(2, params=(0,), autos=False, kinds=('this', 'yield') if deep else ('this',)):
        for tests in itertools.product(USES2, repeat=2) if deep else [((0, 1), (0, 1))]:
            for split in (1, 2):
                yield g, tests, split, 'own', True
    # three fixtures
    for g in graphs(3, params=(0, 2) if deep else (0,), autos=False):
        if deep or (sum(map(len, g['deps'].values())) > 1):
            for tests in [((2,), (0, 1)), ((0, 2), (1, 2)), ((1,), (2, 0))]:
                for split in (1, 2):
                    yield g, tests, split, 'args', False
            if deep and not any(g['params']):
                yield g, ((2,), (0, 1)), 1, 'args', True


NPART = 96


def bound(tier):
    return ('all graphs of 2 fixtures (scopes, dependency, 1 or 2 parameter values, autouse) x sequences of %s tests in 1-2 files, in 3 forms; 3 fixtures x 3 sequences; '
            'an error or a skip at every point of the fixtures and tests of %s') % (('3', 'all sequences of 2 tests') if tier == 'thorough' else ('2 (some of 3)', 'some sequences of 2 tests'))


def tasks(tier):
    for k in range(NPART):
        yield [tier, k]


def run_task(task, st):
    tier, k = task
    for i, (g, tests, split, form, faults) in enumerate(cases(tier)):
        if i % NPART != k:
            continue
        t = check(g, tests, split, form, None, st)
        if faults:
            for p in range(len(t.points)):
                for act in ('E', 'S'):
                    check(g, tests, split, form, (p, act), st)
        if len(st.new_violations()) > 2:
            return
