"""C06: every placement of a bounded number of fixture definitions over a directory tree, and every dependency digraph with
scopes over three fixtures, loaded and run in real sessions, against a model of lexical lookup."""
import itertools, os, shutil
from .. import env, world
from ..world import fresh_dir, write_tree
import slash

PROPERTY = 'C06'
ASSUMPTIONS = ['files are not imported by one another', 'a faulty definition which no loaded test can reach may be refused or not',
               'an override requiring the name it overrides depends on itself', 'two definitions of one name in one file are unspecified']
MINIMUMS = {'executions': 5000, 'accepted': 3000, 'refused': 1000, 'values': 10000}

_EV = []


def FIX(ident, **deps):
    _EV.append(('fixture', ident))
    return (ident, tuple(sorted(deps.items())))


def BODY(name, **values):
    _EV.append(('test', name, values))


HEAD = 'import slash\nfrom mc.checks import c06\n\n'

# ------------------------------------------------------------------------------------------ placements
#: place -> (path, place outwards)
PLACES = {'R': ('slashconf.py', None), 'S': ('sub/slashconf.py', 'R'), 'O': ('other/sub/slashconf.py', 'R'),
          'r': ('r.py', 'R'), 's': ('sub/s.py', 'S'), 'z': ('sub/z.py', 'S'), 'o': ('other/sub/o.py', 'O')}
FILES = ['r', 's', 'z', 'o']
NAMES = ['a', 'b']
ORDERS = {'tree': ['.'], 'inner first': ['sub/z.py', 'sub/s.py', 'r.py', 'other'], 'other first': ['other', 'sub'], 'only inner': ['sub']}
STYLES = ['plain', 'renamed', 'confdir', 'parametrized', 'classes', 'yield']


def lookup(defs, place, name):
    while place is not None:
        if (place, name) in defs:
            return (place, name)
        place = PLACES[place][1]
    return None


def chain(place):
    while place is not None:
        yield place
        place = PLACES[place][1]


#: order -> files as they are loaded
LOADED = {'tree': ['r', 'o', 's', 'z'], 'inner first': ['z', 's', 'r', 'o'], 'other first': ['o', 's', 'z'], 'only inner': ['s', 'z']}


def first_load(defs, order):
    """the other behaviour of the listed finding: a fixture of a customization file is bound to the names seen by the first file loaded which sees it"""
    def resolve(place, name, owner):
        if PLACES[place][0].endswith('slashconf.py'):
            for f in LOADED[order]:
                if lookup(defs, PLACES[f][1], owner) == (place, owner):
                    return lookup(defs, PLACES[f][1], name)
        return lookup(defs, place, name)
    return resolve


def value(defs, d, resolve, path=()):
    """the value of a definition; raises KeyError('unknown') or KeyError('cycle')"""
    if d in path:
        raise KeyError('cycle')
    dep = defs[d]
    if dep is None:
        return (d, ())
    t = resolve(d[0], dep, d[1])
    if t is None:
        raise KeyError('unknown')
    return (d, ((dep, value(defs, t, resolve, path + (d,))),))


def fixture_src(place, name, dep, style):
    args = dep or ''
    call = 'c06.FIX((%r, %r)%s)' % (place, name, ', %s=%s' % (dep, dep) if dep else '')
    if style == 'renamed' and place in 'Ss':
        return '@slash.fixture(name=%r)\ndef %s_of_%s(%s):\n    return %s\n\n' % (name, name, place, args, call)
    if style == 'parametrized':
        return '@slash.fixture\n@slash.parametrize("p", [%r])\ndef %s(%s):\n    assert p == %r\n    return %s\n\n' % (place, name, ', '.join(['p'] + ([dep] if dep else [])), place, call)
    if style == 'yield':
        return '@slash.yield_fixture\ndef %s(%s):\n    yield %s\n\n' % (name, args, call)
    return '@slash.fixture\ndef %s(%s):\n    return %s\n\n' % (name, args, call)


def tests_src(f, req, style):
    src = ''
    if style == 'classes':
        src += 'class T(slash.Test):\n    def before(self, %s):\n        self.v = dict(%s)\n' % (', '.join(req), ', '.join('%s=%s' % (n, n) for n in req))
        src += '    def test_m(self%s):\n        c06.BODY(%r, %s)\n' % (''.join(', ' + n for n in req[:1]), f + '.m', ''.join('x_%s=%s, ' % (n, n) for n in req[:1]) + '**self.v')
    else:
        for n in req:
            src += 'def test_%s(%s):\n    c06.BODY(%r, %s=%s)\n\n' % (n, n, '%s.%s' % (f, n), n, n)
        if len(req) > 1:
            src += 'def test_two(x: slash.use("b"), a):\n    c06.BODY(%r, b=x, a=a)\n\n' % (f + '.two')
    src += '@slash.parametrize("a", ["mine"])\ndef test_param(a):\n    c06.BODY(%r, a=a)\n\n' % (f + '.param')
    return src


def expected_tests(f, req, style):
    if style == 'classes':
        yield f + '.m', list(req) + (['x_' + req[0]] if req else [])
    else:
        for n in req:
            yield '%s.%s' % (f, n), [n]
        if len(req) > 1:
            yield f + '.two', ['a', 'b']
    yield f + '.param', 'mine'


def run_place(defs, order, style, ask, st):
    """ask: 'visible' or 'all'"""
    files = {}
    req = {f: [n for n in NAMES if ask == 'all' or lookup(defs, f, n)] for f in FILES}
    for p, (path, outer) in PLACES.items():
        mine = [(n, dep) for (q, n), dep in sorted(defs.items()) if q == p]
        src = HEAD + ''.join(fixture_src(p, n, dep, style) for n, dep in mine)
        if p in FILES:
            src += tests_src(p, req[p], style)
        elif not mine and p != 'O':
            continue
        if style == 'confdir' and path.endswith('slashconf.py'):
            path = path[:-3] + '/conf_%s.py' % p
        files[path] = src
    def model(resolve):
        must, may, exp = [], [], {}
        for f in LOADED[order]:
            for name, want in expected_tests(f, req[f], style):
                if want == 'mine':
                    exp[name] = {'a': 'mine'}
                    continue
                exp[name] = {}
                for w in want:
                    t = lookup(defs, f, w[-1])
                    try:
                        if t is None:
                            raise KeyError('unknown')
                        exp[name][w] = value(defs, t, resolve)
                    except KeyError as e:
                        must.append('%s needs %s: %s' % (name, w, e.args[0]))
        for d in defs:
            try:
                value(defs, d, resolve)
            except KeyError as e:
                may.append('%s: %s' % (d, e.args[0]))
        return exp, must, may
    what = 'definitions %s, tests asking for %s names, loading %s (%s)' % ({'%s:%s' % k: v for k, v in sorted(defs.items())}, ask, order, style)
    d = fresh_dir('c06')
    write_tree(d, files)
    judge(d, [os.path.join(d, p) for p in ORDERS[order]], model(lambda p, n, o: lookup(defs, p, n)), what, st,
          ('place', sorted(defs.items(), key=repr), order, style, ask), model(first_load(defs, order)))


def judge(d, argv, model, what, st, ident, other=None):
    del _EV[:]
    try:
        out = world.run_session(d, argv)
    finally:
        shutil.rmtree(d, True)
    ran = [e for e in _EV if e[0] == 'test']
    refused = not _EV and bool(out.raised is not None or out.exit_code)
    bad = compare(out, ran, refused, *model)
    if model[1] or (refused and model[2]):
        st.count('refused')
    else:
        st.count('accepted')
        st.count('values', len(model[0]))
    st.state(sorted(repr(e) for e in _EV))
    st.execution(ident, sample=dict(case=what, outcome='refused' if refused else 'accepted', events=len(_EV)))
    if bad:
        key = None
        if other is not None and not compare(out, ran, refused, *other):
            key = 'outer-fixture-bound-by-first-file'
        st.violation('%s%s: %s' % (key + ': ' if key else '', what, bad[0]), dict(case=what, problems=bad[:4]), key=key)


def compare(out, ran, refused, exp, must, may):
    bad = []
    if must:
        if _EV:
            bad.append('%s ran although %s' % ([e[1] for e in _EV][:4], must[0]))
        elif not refused:
            bad.append('not refused although %s (exit code %s)' % (must[0], out.exit_code))
    elif not (refused and may):
        errors = [e.message for r in out.session.results.iter_all_results() for e in r.get_errors()] if out.session is not None else [repr(out.raised)]
        if out.exit_code != 0 or errors:
            bad.append('failed (exit code %s): %s' % (out.exit_code, [str(e)[:160] for e in errors][:2] or out.report.getvalue()[-200:]))
        got = {}
        for _, name, values in ran:
            if name in got:
                bad.append('%s ran twice' % name)
            got[name] = values
        for name in sorted(set(exp) | set(got)):
            if name not in got:
                bad.append('%s did not run' % name)
            elif name not in exp:
                bad.append('%s ran' % name)
            elif got[name] != exp[name]:
                bad.append('%s got %s, expected %s' % (name, got[name], exp[name]))
    return bad


def placements(k, names=NAMES):
    sites = [(p, n) for p in PLACES for n in names]
    for n in range(1, k + 1):
        for sel in itertools.combinations(sites, n):
            for deps in itertools.product((None, 'other'), repeat=n):
                yield {s: (None if x is None else [m for m in NAMES if m != s[1]][0]) for s, x in zip(sel, deps)}


def place_cases(tier):
    for defs in placements(2):
        for order in ORDERS:
            for style in STYLES:
                for ask in ('visible', 'all'):
                    if tier == 'thorough' or style == 'plain' or (order in ('tree', 'inner first') and ask == 'visible'):
                        yield defs, order, style, ask
    for defs in placements(4 if tier == 'thorough' else 3):
        if len(defs) > 2:
            for order in ORDERS if tier == 'thorough' and len(defs) == 3 else ('tree', 'other first'):
                yield defs, order, 'plain', 'visible'
            if tier == 'thorough' and len(defs) == 3:
                for style in STYLES:
                    yield defs, 'tree', style, 'visible'
                    yield defs, 'inner first', style, 'all'


# ------------------------------------------------------------------------------------------ digraphs
SCOPES = ['test', 'module', 'session']
N3 = ['f0', 'f1', 'f2']
SITES = ['arg', 'use', 'alias', 'before', 'method', 'after', 'autouse']


def run_graph(edges, scopes, wanted, site, split, st):
    """edges: set of (i, j): fi depends on fj; j == 3 is a fixture that does not exist; split: definitions of the first go to slashconf.py"""
    src = {'slashconf.py': '', 'a.py': ''}
    for i, n in enumerate(N3):
        deps = [(N3 + ['f3'])[j] for k, j in sorted(edges) if k == i]
        auto = site == 'autouse' and i in wanted
        where = 'slashconf.py' if i < split else 'a.py'
        src[where] += '@slash.fixture(scope=%r, autouse=%r)\ndef %s(%s):\n    return c06.FIX(%r%s)\n\n' % (scopes[i], auto, n, ', '.join(deps), n, ''.join(', %s=%s' % (x, x) for x in deps))
    names = [N3[i] for i in wanted]
    kw = ', '.join('%s=%s' % (n, n) for n in names)
    if site == 'arg':
        t = 'def test_t(%s):\n    c06.BODY("t", %s)\n' % (', '.join(names), kw)
    elif site == 'use':
        t = '@slash.use_fixtures(%r)\ndef test_t():\n    c06.BODY("t")\n' % names
    elif site == 'alias':
        t = 'def test_t(%s):\n    c06.BODY("t", %s)\n' % (', '.join('x_%s: slash.use(%r)' % (n, n) for n in names), ', '.join('%s=x_%s' % (n, n) for n in names))
    elif site == 'autouse':
        t = 'def test_t():\n    c06.BODY("t")\n'
    else:
        arg = ', '.join(['self'] + names)
        t = 'class T(slash.Test):\n'
        t += '    def before(%s):\n        self.v = dict(%s)\n' % ((arg, kw) if site == 'before' else ('self', ''))
        t += '    def test_t(%s):\n        c06.BODY("t", %s)\n' % ((arg, kw) if site == 'method' else ('self', '**self.v'))
        if site == 'after':
            t += '    def after(%s):\n        c06.BODY("after", %s)\n' % (arg, kw)
    first = 'def test_0():\n    c06.BODY("0")\n'
    src['a.py'] += t
    src['0.py'] = first
    files = {n: HEAD + s for n, s in src.items() if s}
    adj = {i: sorted(j for k, j in edges if k == i) for i in range(3)}

    def faults(start):
        """what is wrong with what can be reached"""
        out = []
        seen, todo = set(), list(start)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            for j in adj[i]:
                if j == 3:
                    out.append('%s needs an unknown fixture' % N3[i])
                    continue
                if SCOPES.index(scopes[j]) < SCOPES.index(scopes[i]):
                    out.append('%s of scope %s needs %s of scope %s' % (N3[i], scopes[i], N3[j], scopes[j]))
                if i < split <= j:
                    out.append('%s cannot see %s' % (N3[i], N3[j]))
                todo.append(j)
        reach = {i: set(adj[i]) for i in seen}
        for _ in range(3):
            for i in reach:
                for j in list(reach[i]):
                    reach[i] |= reach.get(j, set())
        out += ['%s depends on itself' % N3[i] for i in reach if i in reach[i]]
        return out

    def val(i):
        return (N3[i], tuple((N3[j], val(j)) for j in adj[i]))
    must, may = faults(wanted), faults(range(3))
    exp = {}
    if not must:
        v = {N3[i]: val(i) for i in wanted}
        exp = {'0': {}, 't': v if site not in ('use', 'autouse', 'after') else {}}
        if site == 'after':
            exp['after'] = v
    what = 'fixtures %s, a test needing %s (%s)%s' % ({'%s:%s' % (N3[i], scopes[i]): [(N3 + ['f3'])[j] for j in adj[i]] for i in range(3)}, [N3[i] for i in wanted], site, ', %d in slashconf.py' % split if split else '')
    d = fresh_dir('c06')
    write_tree(d, files)
    judge(d, [d], (exp, must, may), what, st, ('graph', sorted(edges), scopes, wanted, site, split))


def graph_cases(tier):
    pairs = [(i, j) for i in range(3) for j in range(3)]
    every = [frozenset(c) for n in range(10) for c in itertools.combinations(pairs, n)]
    test = ('test',) * 3
    # all digraphs, required in all ways
    for e in every:
        for site in SITES:
            for wanted in ((0,), (0, 1, 2)):
                if len(e) <= (9 if tier == 'thorough' else 4):
                    yield e, test, wanted, site, 0
    # all scopes
    for e in every:
        if len(e) <= (6 if tier == 'thorough' else 3) and e:
            for scopes in itertools.product(SCOPES, repeat=3):
                if scopes != test:
                    yield e, scopes, (0, 1), 'arg', 0
                    if tier == 'thorough':
                        yield e, scopes, (0,), 'autouse', 1
    # unknown ones, and ones defined further in
    unk = pairs + [(i, 3) for i in range(3)]
    for e in itertools.chain.from_iterable(itertools.combinations(unk, n) for n in (1, 2, 3)):
        for split in (0, 1, 2):
            if split or any(j == 3 for _, j in e):
                yield frozenset(e), test, (0, 1), 'arg', split


NP, NG = 48, 48


def bound(tier):
    return ('placements: all sets of at most %d definitions of 2 names over 3 customization files and 4 test files, each independent or depending on the other name, in up to %d load orders, 6 styles '
            'for at most 2; digraphs: all over 3 fixtures with at most %d edges in %d ways of use, scopes for at most %d edges, unknown names' %
            ((4, len(ORDERS), 9, 7, 6) if tier == 'thorough' else (3, len(ORDERS), 4, 7, 3)))


def tasks(tier):
    for k in range(NP):
        yield ['place', tier, k]
    for k in range(NG):
        yield ['graph', tier, k]


def run_task(task, st):
    fam, tier, k = task
    cases = place_cases(tier) if fam == 'place' else graph_cases(tier)
    n = NP if fam == 'place' else NG
    f = run_place if fam == 'place' else run_graph
    for i, c in enumerate(cases):
        if i % n == k:
            f(*c, st)
            if len(st.new_violations()) > 2:
                return
