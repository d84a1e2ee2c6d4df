"""C05: every small program of parametrized tests, fixtures and before/after methods, run for real: which combinations run, which
values every function saw in each run, what the reported variation says - against the transitive product of parameters."""
import itertools, os
from .. import env, world
from ..world import Recorder, fresh_dir, write_tree
import slash
from slash.ctx import context

PROPERTY = 'C05'
ASSUMPTIONS = ['fixtures named in slash.exclude are direct arguments of the test, as documented']
MINIMUMS = {'executions': 300, 'runs': 8000, 'excluded': 100}

# ------------------------------------------------------------------------------------------ what programs record
_S = {}


class Val(object):
    """the value of a fixture: which fixture, its own parameters, the values it got for its dependencies"""
    def __init__(self, name, params, deps):
        self.name, self.params, self.deps = name, params, deps

    def flat(self, out, path):
        for p, v in self.params.items():
            out.append((self.name + '.' + p, v))
        for n, d in self.deps.items():
            if not isinstance(d, Val) or d.name != n:
                out.append(('wrong fixture', '%s.%s is %r' % (path, n, d)))
            else:
                d.flat(out, path + '.' + n)


def FX(name, params, deps):
    v = Val(name, params, deps)
    out = []
    v.flat(out, name)
    _S['fx'].append((name, tuple(sorted(out, key=repr))))
    _S['vals'].append(v)
    return v


def SITE(site, params, fixtures):
    """a test body, before or after method"""
    out = []
    for p, v in params.items():
        out.append((site + '.' + p, v))
    for n, v in fixtures.items():
        if not isinstance(v, Val) or v.name != n:
            out.append(('wrong fixture', '%s: %s is %r' % (site, n, v)))
        else:
            v.flat(out, n)
    md = context.test.__slash__
    _S['sites'].append((md.id, site, out))


def dep(v):
    return v


# ------------------------------------------------------------------------------------------ programs
class Param(object):
    """one parametrization: names (one or several varying together) and their list of (value(s), label, tags)"""
    def __init__(self, owner, names, values, decl=None):
        self.owner, self.names, self.values, self.decl = owner, tuple(names), values, decl

    def source(self):
        if self.decl:
            return self.decl
        vs = []
        for val, label, tags in self.values:
            v = repr(val if len(self.names) > 1 else val[0])
            if label:
                v = 'slash.param(%r, %s%s)' % (label, v, ', tags=%r' % (tags,) if tags else '')
            vs.append(v)
        return '@slash.parametrize(%s, [%s])' % (repr(self.names[0]) if len(self.names) == 1 else repr(self.names), ', '.join(vs))

    def keys(self):
        return [self.owner + '.' + n for n in self.names]


def simple(owner, name, n=2, labels=()):
    return Param(owner, [name], [(('%s-%s-%d' % (owner, name, i),), dict(enumerate(labels)).get(i), None) for i in range(n)])


class Fixture(object):
    def __init__(self, name, params=(), deps=(), scope='test', autouse=False, generator=False, use=()):
        self.name, self.params, self.deps, self.scope, self.autouse, self.generator, self.use = name, list(params), list(deps), scope, autouse, generator, list(use)

    def source(self):
        if self.generator:
            p = self.params[0]
            return '''@slash.generator_fixture
def %s():
%s
''' % (self.name, '\n'.join('    yield c05.FX(%r, {"param": %r}, {})' % (self.name, v[0][0]) for v in p.values))
        names = [n for p in self.params for n in p.names]
        return '''@slash.fixture(scope=%r, autouse=%r)
%sdef %s(%s):
    return c05.FX(%r, {%s}, {%s})
''' % (self.scope, self.autouse, ''.join(p.source() + '\n' for p in self.params) + ('@slash.use_fixtures(%r)\n' % self.use if self.use else ''), self.name, ', '.join(names + self.deps),
       self.name, ', '.join('%r: %s' % (n, n) for n in names), ', '.join('%r: %s' % (d, d) for d in self.deps))


class Site(object):
    """a function with parameters and fixture arguments: the test itself, a before or an after method"""
    def __init__(self, name, params=(), args=(), use=(), alias=(), excludes=(), decorators='', nofixtures=False):
        self.name, self.params, self.args, self.use, self.alias, self.excludes = name, list(params), list(args), list(use), list(alias), list(excludes)
        self.decorators, self.nofixtures = decorators, nofixtures

    def source(self, fname, method=False, site=None, pre=''):
        names = [n for p in self.params for n in p.names]
        args = names + self.args + ['%s: slash.use(%r)' % (a, f) for a, f in self.alias]
        ind = '    ' if method else ''
        decos = [self.decorators] if self.decorators else [p.source() for p in self.params]
        decos += ['@slash.exclude(%r, %r)' % (n, v) for n, v in self.excludes]
        if self.use:
            decos.append('@slash.use_fixtures(%r)' % self.use)
        if self.nofixtures:
            decos.append('@slash.nofixtures')
        body = 'c05.SITE(%r, {%s}, {%s})' % (site or self.name, ', '.join('%r: %s' % (n, n) for n in names),
                                            ', '.join(['%r: %s' % (a, a) for a in self.args] + ['%r: %s' % (f, a) for a, f in self.alias]))
        return ''.join(ind + d + '\n' for x in decos for d in x.split('\n')) + '%sdef %s(%s):\n' % (ind, fname, ', '.join((['self'] if method else []) + args)) + (ind + '    ' + pre + '\n' if pre else '') + ind + '    ' + body + '\n'

    def needs(self):
        return self.args + self.use + [f for _, f in self.alias]


class TestSpec(object):
    """sites: (prefix used in reported names, Site); the last one is the test itself"""
    def __init__(self, address, sites, test, class_source=None):
        self.address, self.sites, self.test, self.class_source = address, sites, test, class_source


class Program(object):
    def __init__(self, name, fixtures, tests, conf_fixtures=(), classes=''):
        self.name, self.fixtures, self.tests, self.conf_fixtures, self.classes = name, list(fixtures), tests, list(conf_fixtures), classes

    def files(self):
        head = 'import slash\nfrom mc.checks import c05\n\n'
        src = head + '\n'.join(f.source() for f in self.fixtures) + '\n' + self.classes
        for t in self.tests:
            if t.class_source is None:
                src += '\n' + t.test.source(t.address)
        out = {'a.py': src}
        if self.conf_fixtures:
            out['slashconf.py'] = head + '\n'.join(f.source() for f in self.conf_fixtures)
        return out


SCOPES = ['test', 'module', 'session']


def closure(fx, names):
    seen = []
    todo = list(names)
    while todo:
        n = todo.pop(0)
        if n not in seen:
            seen.append(n)
            todo += fx[n].deps
    return seen


def expected(prog, t):
    """(list of params transitively needed, fixtures in use)"""
    fx = {f.name: f for f in prog.fixtures + prog.conf_fixtures}
    need = [n for _, s in t.sites for n in s.needs()] + [f.name for f in fx.values() if f.autouse]
    fxs = closure(fx, need)
    params = []
    for _, s in t.sites:
        for p in s.params:
            if p not in params:
                params.append(p)
    for n in fxs:
        for p in fx[n].params:
            if p not in params:
                params.append(p)
    return params, fxs, fx


def resolve(prog, t, fx, name):
    """which parameters a name in the reported variation may denote"""
    out = []

    def walk(owner_params, owner_deps, parts):
        if len(parts) == 1:
            return [(p, p.names.index(parts[0])) for p in owner_params if parts[0] in p.names]
        if parts[0] in owner_deps:
            f = fx[owner_deps[parts[0]]]
            return walk(f.params, {d: d for d in f.deps}, parts[1:])
        return []
    auto = name.startswith('::')
    if auto:
        parts = name[2:].split('.')
        return walk([], {f.name: f.name for f in fx.values() if f.autouse}, parts)
    for prefix, s in t.sites:
        n = name
        if prefix:
            if not n.startswith(prefix + ':'):
                continue
            n = n[len(prefix) + 1:]
        elif ':' in n:
            continue
        owner = {a: a for a in s.args + s.use}
        owner.update(dict(s.alias))
        out += walk(s.params, owner, n.split('.'))
    return out


def is_excluded(prog, t, fx, combo):
    """combo: {key: value}"""
    for owner, excludes in [(t.test.name, t.test.excludes)]:
        for names, sets in excludes:
            if isinstance(names, str):
                names, sets = (names,), [(v,) for v in sets]
            vals = []
            for n in names:
                if '.' in n:
                    parts = n.split('.')
                    vals.append(combo[parts[-2] + '.' + parts[-1]])
                else:
                    vals.append(combo[owner + '.' + n])
            if tuple(vals) in [tuple(x) for x in sets]:
                return True
    return False


_n = [0]


def run_program(prog, st):
    d = fresh_dir('c05')
    write_tree(d, prog.files())
    _S.update(fx=[], sites=[], vals=[])
    order = []
    marks = []

    def test_start():
        marks.append((context.test.__slash__.id, len(_S['fx'])))
    try:
        out = world.run_session(d, [d + '/a.py'], hooks={'test_start': test_start})
    finally:
        import shutil
        shutil.rmtree(d, True)
    bad = []
    results = list(out.session.results.iter_test_results()) if out.session is not None else []
    if out.exit_code != 0 and not results:
        bad.append('refused or failed: exit code %s\n%s' % (out.exit_code, out.report.getvalue()[-800:]))
    by_test = {}
    for r in results:
        by_test.setdefault(r.test_metadata.address_in_file, []).append(r)
    extra = set(by_test) - {t.address for t in prog.tests}
    if extra:
        bad.append('unexpected tests %s' % extra)
    started = {i for i, _ in marks}
    if not bad:
        for t in prog.tests:
            bad += check_test(prog, t, by_test.get(t.address, []), started, st)
            if bad:
                break
    st.execution((prog.name, _S['sites'], [r.test_metadata.address for r in results]), sample=dict(program=prog.name, runs=[r.test_metadata.address_in_file + '(' + r.test_metadata.variation.safe_repr + ')' for r in results[:8]]))
    if bad:
        st.violation('program %s: %s' % (prog.name, bad[0]), dict(program=prog.name, files=prog.files(), problems=bad[:5]))


def check_test(prog, t, results, started, st):
    bad = []
    params, fxs, fx = expected(prog, t)
    for p in params:
        p.idx = range(len(p.values))
    want = set(itertools.product(*[range(len(p.values)) for p in params]))
    got = []
    addresses = []
    for r in results:
        md = r.test_metadata
        st.count('runs')
        sites = [(s, o) for i, s, o in _S['sites'] if i == md.id]
        seen = {}
        for s, o in sites:
            for k, v in o:
                if k == 'wrong fixture':
                    bad.append('%s: %s' % (md.address_in_file, v))
                elif k in seen and seen[k] != v:
                    bad.append('%s(%s): %s is %r and also %r in the same run' % (md.address_in_file, md.variation.safe_repr, k, seen[k], v))
                else:
                    seen[k] = v
        # reported names
        rep = {}
        for name, v in md.variation.values.items():
            cands = resolve(prog, t, fx, name)
            if not cands:
                bad.append('%s: reported name %r denotes no parameter' % (md.address_in_file, name))
                continue
            ok = [(p, i) for p, i in cands if any(val[i] == v for val, _, _ in p.values)]
            if not ok:
                bad.append('%s: reported %s=%r is not a value of it' % (md.address_in_file, name, v))
                continue
            for p, i in ok[:1]:
                rep.setdefault(p.owner + '.' + p.names[i], []).append((v, name))
        for k, vs in rep.items():
            for v, name in vs:
                if k in seen and seen[k] != v:
                    bad.append('%s: reported %s=%r but %s saw %r' % (md.address_in_file, name, v, k, seen[k]))
        full = {k: vs[0][0] for k, vs in rep.items()}
        for k in rep:
            if len({repr(v) for v, _ in rep[k]}) > 1:
                bad.append('%s: reported names disagree about %s: %s' % (md.address_in_file, k, rep[k]))
        full.update(seen)
        combo = []
        for p in params:
            vals = [full.get(k) for k in p.keys()]
            idx = [i for i, (val, _, _) in enumerate(p.values) if list(val) == vals]
            if not idx:
                bad.append('%s(%s): parameters %s have the values %s (of %s)' % (md.address_in_file, md.variation.safe_repr, p.keys(), vals, [v[0] for v in p.values]))
                break
            combo.append(idx[0])
        if bad:
            return bad
        combo = tuple(combo)
        ex = is_excluded(prog, t, fx, full)
        if ex:
            st.count('excluded')
            if sites or md.id in started or not r.is_skip():
                bad.append('%s(%s) is excluded but %s' % (md.address_in_file, md.variation.safe_repr, 'ran' if sites else 'is not reported as skipped'))
        else:
            expected_sites = list({s.name for _, s in t.sites})
            order = [s for s, _ in sites]
            if sorted(order) != sorted(expected_sites):
                bad.append('%s(%s) called %s, expected %s%s' % (md.address_in_file, md.variation.safe_repr, order, expected_sites, ' errors: %s' % [e.message for e in r.get_errors()]))
            elif not r.is_success():
                bad.append('%s(%s): %s' % (md.address_in_file, md.variation.safe_repr, [e.message for e in r.get_errors()] + list(r.get_skips())))
        # labels follow values; tags of values in use
        for name in md.variation.values:
            for p, i in resolve(prog, t, fx, name)[:1]:
                j = combo[params.index(p)] if p in params else None
                if j is None:
                    bad.append('%s: reports %s which it does not depend on' % (md.address_in_file, name))
                    continue
                lab = p.values[j][1]
                if (md.variation.labels[name] != (lab if lab else j)):
                    bad.append('%s: %s=%r is labelled %r, not %r' % (md.address_in_file, name, md.variation.values[name], md.variation.labels[name], lab or j))
        tags = set()
        for p, j in zip(params, combo):
            for tag in p.values[j][2] or ():
                tags.add(tag)
        have = {n for n in ('ta', 'tb', 'tc') if n in md.tags}
        if have != tags:
            bad.append('%s(%s) has the tags %s of its values, expected %s' % (md.address_in_file, md.variation.safe_repr, have, tags))
        got.append(combo)
        addresses.append(md.address)
        if bad:
            return bad
    if len(got) != len(want) or set(got) != want:
        dup = [c for c in set(got) if got.count(c) > 1]
        bad.append('%s ran %d combinations of %s, expected %d (missing %s, repeated %s, extra %s)' % (
            t.address, len(got), [p.keys() for p in params], len(want), sorted(want - set(got))[:2], dup[:2], sorted(set(got) - want)[:2]))
    elif len(set(addresses)) != len(addresses):
        bad.append('%s: different combinations reported under the same name: %s' % (t.address, sorted(addresses)))
    else:
        bad += grouping(prog, t, params, fxs, fx, got, st)
    st.state((prog.name, t.address, tuple(got)))
    return bad


def grouping(prog, t, params, fxs, fx, got, st):
    """wide-scope values stay grouped: the values of all parameters of session fixtures change least often, then those of module ones"""
    for level in ('session', 'module'):
        idx = [i for i, p in enumerate(params) if any(p in fx[n].params for n in fxs if SCOPES.index(fx[n].scope) >= SCOPES.index(level))]
        keys = [tuple(c[i] for i in idx) for c in got]
        groups = [k for k, _ in itertools.groupby(keys)]
        if len(groups) != len(set(groups)):
            return ['%s: values of %s-scope parameters %s are not kept together: %s' % (t.address, level, [params[i].keys() for i in idx], groups)]
    return []


# ------------------------------------------------------------------------------------------ families
def graphs(tier):
    """three fixtures, every dependency shape, every subset of them parametrized; tests needing every subset, with 0..2 own parameters"""
    scopings = [('test', 'test', 'test'), ('session', 'test', 'test'), ('session', 'module', 'test'), ('session', 'module', 'module'), ('module', 'module', 'test'), ('test', 'session', 'module'), ('test', 'test', 'session')]
    for sc in scopings:
        for edges in itertools.product([0, 1], repeat=3):
            deps = {1: [0] if edges[0] else [], 2: ([0] if edges[1] else []) + ([1] if edges[2] else []), 0: []}
            if any(SCOPES.index(sc[b]) < SCOPES.index(sc[a]) for a in deps for b in deps[a]):
                continue
            for par in itertools.product([0, 1], repeat=3):
                if tier == 'quick' and sum(par) == 0:
                    continue
                yield sc, deps, par


def graph_program(sc, deps, par, autouse=None):
    fixtures = []
    for i in range(3):
        fixtures.append(Fixture('f%d' % i, [simple('f%d' % i, 'p%d' % i)] if par[i] else [], ['f%d' % j for j in deps[i]], sc[i], autouse=autouse == i))
    tests = []
    n = 0
    for args in itertools.product([0, 1], repeat=3):
        for own in (0, 1):
            n += 1
            name = 'test_%02d' % n
            ps = [simple(name, 'x')] if own else []
            site = Site(name, ps, ['f%d' % i for i in (2, 0, 1) if args[i]])
            tests.append(TestSpec(name, [('', site)], site))
    return Program('graph %s deps %s params %s%s' % (sc, deps, par, ' autouse f%s' % autouse if autouse is not None else ''), fixtures, tests)


def decorations(tier):
    """tests decorated with every combination of parametrization forms and exclusions"""
    def p_single(o):
        return simple(o, 'a'), None

    def p_label(o):
        return Param(o, ['b'], [(('b0',), 'first', ['ta']), (('b1',), 'second', ['tb']), ((None,), None, None)]), None

    def p_tuple(o):
        return Param(o, ['c', 'd'], [((1, 'x'), None, None), ((1, 'y'), 'lab', ['tc']), ((2, 'x'), None, None)]), None

    def p_toggle(o):
        return Param(o, ['e'], [((True,), None, None), ((False,), None, None)], decl="@slash.parameters.toggle('e')"), None

    def p_iter(o):
        # one parametrization per name
        return Param(o, ['g'], [((1,), None, None), (([2, 3],), None, None)], decl="@slash.parameters.iterate(g=[1, [2, 3]])"), None

    def p_list(o):
        return Param(o, ['h', 'i'], [((1, 'x'), None, None), ((2, 'y'), None, None)], decl="@slash.parametrize(('h', 'i'), [[1, 'x'], (2, 'y')])"), None

    def p_one(o):
        return simple(o, 'j', 1), None

    def p_none(o):
        return simple(o, 'k', 3, labels=('l0', 'l1', 'l2')), None
    def p_m(o):
        return Param(o, ['m'], [((1,), None, None), ((2,), None, None), ((3,), None, None)]), None

    def p_n(o):
        return Param(o, ['n'], [((1,), None, None), ((2,), None, None)]), None
    forms = [p_single, p_label, p_tuple, p_toggle, p_iter, p_list, p_one, p_none]
    tests = []
    n = 0
    extra = [(p_m, p_n), (p_n, p_m), (p_m, p_tuple, p_n), (p_tuple, p_n)]
    for k in (1, 2, 3, 4):
        for sel in (itertools.permutations(forms, k) if k < 3 else itertools.combinations(forms, k) if k == 3 else extra):
            n += 1
            name = 'test_%03d' % n
            params = [f(name)[0] for f in sel]
            # the first (outermost) decorator exercised with exclusions too
            exs = [[]]
            byname = {f.__name__: f(name)[0] for f in sel}
            if p_single in sel:
                v = params[sel.index(p_single)].values
                exs += [[('a', [v[0][0][0]])], [('a', [v[0][0][0]]), ('a', [v[1][0][0]])]]
                if p_tuple in sel:
                    exs += [[(('a', 'c'), [(v[0][0][0], 1)])], [(('c', 'a', 'd'), [(1, v[0][0][0], 'y'), (2, v[1][0][0], 'x')])], [('a', [v[0][0][0]]), ('c', [2])]]
                if p_label in sel:
                    exs += [[(('b', 'a'), [(None, v[1][0][0])])], [('b', ['b0', None])]]
            if p_tuple in sel:
                exs += [[('c', [1])], [(('d', 'c'), [('x', 1)])]]
                if p_toggle in sel:
                    exs += [[(('e', 'd'), [(False, 'x'), (True, 'y')])], [(['e', 'c'], [(False, 1)])]]
            # values of one domain
            if p_m in sel and p_n in sel:
                exs += [[(('m', 'n'), [(1, 2)])], [(('n', 'm'), [(1, 2), (2, 2)])], [(('n', 'm'), [(2, 1), (2, 3)]), ('m', [3])], [(('m', 'n'), [(2, 2)])]]
            if p_tuple in sel and p_n in sel:
                exs += [[(('n', 'c'), [(1, 2)])], [(('c', 'n'), [(1, 2)])]]
            if p_toggle in sel:
                exs += [[('e', [True, False])], [('e', [])]]
            for m, e in enumerate(exs):
                nm = '%s_%d' % (name, m)
                params = [f(nm)[0] for f in sel]
                # values are named after the test: rename in the exclusions
                e2 = [(a, [tuple(x.replace(name, nm) if isinstance(x, str) else x for x in v) if isinstance(v, tuple) else (v.replace(name, nm) if isinstance(v, str) else v) for v in b]) for a, b in e]
                site = Site(nm, params, [], excludes=e2)
                tests.append(TestSpec(nm, [('', site)], site))
    size = 24
    for i in range(0, len(tests), size):
        yield Program('decorations %d' % i, [], tests[i:i + size])


def classes(tier):
    """class tests: parameters of before / test / after, in a base class and a derived one, same and different names"""
    opts = list(itertools.product([0, 1], repeat=4))
    for bb, bt, ba, db in itertools.product(['', 'p', 'px'], ['', 'p', 'q'], ['', 'p', 'r'], ['none', '', 'p', 's', 'ps']):
        # bb: base before params, bt: test params, ba: base after params, db: derived before (none: not overridden)
        for fixt in (False, True):
            for da in ('none', 'p', 't') if fixt else ('none', 't'):
                yield class_program(bb, bt, ba, db, da, fixt)


def class_program(bb, bt, ba, db, da, fixt):
    """Reported names: before:x / test's own / after:x; an overridden method of a base class keeps its class name as a prefix when ambiguous"""
    def ps(owner, names):
        return [simple(owner, n) for n in names]
    fixtures = [Fixture('fx', [simple('fx', 'fp')])] if fixt else []
    fa = ['fx'] if fixt else []
    base_before = Site('B.before', ps('B.before', bb), fa)
    base_after = Site('B.after', ps('B.after', ba), [])
    base_test = Site('B.test_b', ps('B.test_b', bt), fa)
    src = 'class B(slash.Test):\n' + base_before.source('before', True) + base_test.source('test_b', True) + base_after.source('after', True)
    src += '\nclass D(B):\n'
    body = ''
    dsites_b, dsites_a = [('before', base_before)], [('after', base_after)]
    if db != 'none':
        derived_before = Site('D.before', ps('D.before', db), fa)
        body += derived_before.source('before', True, pre='super(D, self).before(%s)' % ', '.join('%s=%s' % (a, a) for a in fa))
        dsites_b = [('before', derived_before), ('before', base_before), ('B.before', base_before)]
    if da != 'none':
        derived_after = Site('D.after', ps('D.after', da), [])
        body += derived_after.source('after', True, pre='super(D, self).after()')
        dsites_a = [('after', derived_after), ('after', base_after), ('B.after', base_after)]
    own = Site('D.test_d', ps('D.test_d', ['z']), [])
    body += own.source('test_d', True)
    src += body
    tests = [TestSpec('B.test_b', [('before', base_before), ('after', base_after), ('', base_test)], base_test, src),
             TestSpec('D.test_b', dsites_b + dsites_a + [('', base_test)], base_test, src),
             TestSpec('D.test_d', dsites_b + dsites_a + [('', own)], own, src)]
    return Program('classes before=%r test=%r after=%r derived before=%r after=%r%s' % (bb, bt, ba, db, da, ' with fixture' if fixt else ''), fixtures, tests, classes=src)


def misc(tier):
    """autouse (in the file or in slashconf), use_fixtures, aliases, generator fixtures, nofixtures, fixture exclusions"""
    for where, sc, n in itertools.product(['file', 'conf'], SCOPES, [0, 1]):
        base = Fixture('base', [simple('base', 'q')], scope=sc)
        au = Fixture('au', [simple('au', 'p')] if n else [], ['base'], scope=sc, autouse=True)
        other = Fixture('other', [simple('other', 'o', 2, labels=('oa',))], [])
        sites = [Site('test_a'), Site('test_b', [simple('test_b', 'x')]), Site('test_c', [], ['au']), Site('test_d', [], ['base', 'other']),
                 Site('test_e', [], [], use=['other']), Site('test_f', [], [], alias=[('m', 'other')]), Site('test_g', [], ['other'], alias=[('m', 'other')]),
                 Site('test_h', [], ['other'], use=['other', 'base']), Site('test_i', [], [], nofixtures=True), Site('test_j', [], [], alias=[('m', 'au'), ('n', 'base')])]
        tests = [TestSpec(s.name, [('', s)], s) for s in sites]
        local = [base, au] if where == 'file' else []
        conf = [base, au] if where == 'conf' else []
        yield Program('autouse in %s, scope %s, %s' % (where, sc, 'parametrized' if n else 'dependency parametrized'), [other] + local, tests, conf)
    # generator fixtures
    g = Fixture('gen', [Param('gen', ['param'], [(('g%d' % i,), None, None) for i in range(3)])], generator=True)
    # its value is the parameter itself
    # exclusions of fixture parameters
    for forms in itertools.product(range(4), repeat=2):
        car = Fixture('car', [simple('car', 'size', 3), simple('car', 'color')])
        van = Fixture('van', [simple('van', 'n')], ['car'])
        s, c = ['car-size-%d' % i for i in range(3)], ['car-color-%d' % i for i in range(2)]
        table = [[], [('car.size', [s[0], s[2]])], [(('car.size', 'car.color'), [(s[0], c[1]), (s[1], c[0])])], [(('x', 'car.size'), [('test_1-x-0', s[1])])]]
        excl = table[forms[0]] + table[forms[1]]
        s1 = Site('test_1', [simple('test_1', 'x')], ['car'], excludes=excl)
        s2 = Site('test_2', [simple('test_2', 'x')], ['car'])
        s3 = Site('test_3', [], ['van', 'car'], excludes=[('van.car.size', [s[1]]), ('van.n', ['van-n-0'])][:1 + forms[0] % 2])
        yield Program('fixture exclusions %s' % (forms,), [car, van], [TestSpec(x.name, [('', x)], x) for x in (s1, s2, s3)])


def big(tier):
    for sc, deps, par in graphs('quick'):
        if sum(par) >= 2:
            for au in range(3):
                yield graph_program(sc, deps, par, autouse=au)


def programs(tier):
    for g in graphs(tier):
        yield graph_program(*g)
    for fam in (decorations, classes, misc):
        for p in fam(tier):
            yield p
    if tier == 'thorough':
        for p in big(tier):
            yield p


NPART = 96


def bound(tier):
    return ('all dependency graphs of 3 fixtures x which are parametrized x 7 scope assignments, 16 tests each; all ordered pairs and all triples of 8 parametrization forms with exclusion sets; '
            'class tests with before/test/after parameters in base and derived class; autouse / use_fixtures / alias / nofixtures%s' % ('; autouse variants of the graphs' if tier == 'thorough' else ''))


def tasks(tier):
    for k in range(NPART):
        yield ['programs', tier, k]


def run_task(task, st):
    _, tier, k = task
    for i, p in enumerate(programs(tier)):
        if i % NPART == k:
            run_program(p, st)
            if st.violations and not os.environ.get('MC_ALL'):
                return
