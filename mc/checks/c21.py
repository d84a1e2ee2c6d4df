"""C21: every placement of a bounded number of tags and requirements over class hierarchies, functions and fixtures, applied to real
classes and run in real sessions, against a model that merges along the inheritance order."""
import functools, itertools, os, shutil
from .. import env, world
from ..world import fresh_dir, write_tree
import slash
from slash.ctx import context
from slash.exceptions import TaggingConflict
from slash.loader import Loader
from sentinels import NOTHING

PROPERTY = 'C21'
ASSUMPTIONS = ['a tag given both with and without a value is unspecified (refused or present)', 'tags of autouse fixtures are unspecified']
MINIMUMS = {'executions': 5000, 'conflicts': 500, 'avoided': 2000, 'tagged tests': 10000}

# ------------------------------------------------------------------------------------------ tags
#: name -> [(class, bases, methods defined)]
SHAPES = {
    'single': [('A', [], ['m', 'n'])],
    'chain': [('A', [], ['m', 'n']), ('B', ['A'], ['m']), ('C', ['B'], ['k'])],
    'siblings': [('A', [], ['m']), ('B', ['A'], ['k']), ('C', ['A'], ['k'])],
    'multi': [('A', [], ['m']), ('X', None, ['n']), ('C', ['A', 'X'], ['m'])],
    'multi2': [('A', [], ['m']), ('B', [], ['n']), ('C', ['B', 'A'], [])],
    # 'p<i': method p is a wrapper (functools.wraps) of method i
    'wrapped': [('A', [], ['i', 'p<i', 'q<i']), ('B', ['A'], ['m'])],
    'diamond': [('A', [], ['m']), ('B', ['A'], []), ('C', ['A'], ['m']), ('D', ['B', 'C'], ['n'])],
}
TAGS = [('t', 1), ('t', 2), ('u', NOTHING), ('t', NOTHING), ('t', None)]


def shape_sites(shape):
    out = []
    for c, bases, methods in SHAPES[shape]:
        out.append(c)
        out += ['%s.%s' % (c, m.split('<')[0]) for m in methods]
    return out


def placements(shape, k):
    sites = shape_sites(shape)
    choices = [(s, t) for s in sites for t in range(len(TAGS))]
    for n in range(1, k + 1):
        for sel in itertools.combinations(choices, n):
            yield sel


def build(shape, sel, late):
    """creates the classes; late: tags are put on after all classes exist, in reverse order"""
    tags = {}
    for s, t in sel:
        tags.setdefault(s, []).append(TAGS[t])
    classes = {}
    todo = []
    made = {}

    def put(site, obj, now=False):
        made[site] = obj
        if not late or now:
            for n, v in tags.get(site, []):
                r = slash.tag(n, v)(obj)
                assert r is obj
        return obj
    for c, bases, methods in SHAPES[shape]:
        ns = {}
        for m in methods:
            m, _, wrapped = m.partition('<')

            def f(self):
                pass
            if wrapped:
                f = functools.wraps(ns['test_' + wrapped])(f)
            f.__name__ = 'test_' + m
            f.__qualname__ = '%s.test_%s' % (c, m)
            ns['test_' + m] = put('%s.%s' % (c, m), f)
        bs = (object,) if bases is None else tuple(classes[b] for b in bases) or (slash.Test,)
        classes[c] = put(c, type(c, bs, dict(ns, __module__=__name__)))
    if late:
        for site in reversed(shape_sites(shape)):
            put(site, made[site], now=True)
    return classes


def merge(pairs):
    """(conflict, ambiguous names, {name: value})"""
    vals = {}
    for n, v in pairs:
        vals.setdefault(n, []).append(v)
    conflict = False
    amb = set()
    out = {}
    for n, vs in vals.items():
        given = [v for v in vs if v is not NOTHING]
        if len({repr(v) for v in given}) > 1:
            conflict = True
        if given and len(given) != len(vs):
            amb.add(n)
        out[n] = given[0] if given else NOTHING
    return conflict, amb, out


def expect_tags(shape, sel, classes, late):
    spec = {c: (b, [x.split('<')[0] for x in m]) for c, b, m in SHAPES[shape]}
    wraps = {'%s.%s' % (c, x.split('<')[0]): '%s.%s' % (c, x.split('<')[1]) for c, b, m in SHAPES[shape] for x in m if '<' in x}
    by = {}
    for s, t in sel:
        by.setdefault(s, []).append(TAGS[t])
    res = {}
    for c, cls in classes.items():
        names = [k.__name__ for k in cls.__mro__ if k.__name__ in spec]
        ctags = [x for k in names for x in by.get(k, [])]
        res[c] = merge(ctags)
        if issubclass(cls, slash.Test):
            for m in sorted({m for k in names for m in spec[k][1]}):
                owner = [k for k in names if m in spec[k][1]][0]
                site = '%s.%s' % (owner, m)
                # a wrapper has what its function had when it was wrapped
                res[c, m] = merge(ctags + ([] if late else by.get(wraps.get(site), [])) + by.get(site, []))
    # decorating a single function with conflicting values
    for s in by:
        res['site', s] = merge(by[s])
    return res


def dump(tags):
    return {n: tags[n] for n in tags}


def same(amb, want, have):
    if set(want) != set(have):
        return False
    return all(n in amb or (want[n] is have[n] if NOTHING in (want[n], have[n]) else want[n] == have[n]) for n in want)


def run_tags(shape, sel, late, st):
    names = [(s, TAGS[t][0], repr(TAGS[t][1])) for s, t in sel]
    what = 'tags %s on %s%s' % (names, shape, ' (put on afterwards)' if late else '')
    bad = []
    conflict = None
    got = {}
    classes = {}
    try:
        classes = build(shape, sel, late)
        with slash.Session():
            for c, cls in classes.items():
                if issubclass(cls, slash.Test):
                    for t in Loader().get_runnables(cls):
                        got[c, t.__slash__.address_in_factory[6:]] = dump(t.__slash__.tags)
                        got[c, t.__slash__.address_in_factory[6:], 'again'] = dump(t.get_tags())
    except TaggingConflict as e:
        conflict = str(e)
    # the reference needs the classes
    ref = build(shape, (), False)
    exp = expect_tags(shape, sel, ref, late)
    must = any(x[0] for x in exp.values())
    may = any(x[1] for x in exp.values())
    if conflict is not None:
        st.count('conflicts')
        if not must and not may:
            bad.append('refused (%s) though nothing conflicts' % conflict)
    elif must:
        bad.append('conflicting tags were accepted: %s' % got)
    else:
        for key, (c, amb, want) in exp.items():
            if isinstance(key, tuple) and key[0] != 'site':
                st.count('tagged tests')
                for k in (key, key + ('again',)):
                    if k not in got:
                        bad.append('%s has no test %s' % key)
                    elif not same(amb, want, got[k]):
                        bad.append('%s.test_%s has the tags %s, expected %s' % (key[0], key[1], got[k], want))
        if set(k for k in got if len(k) == 2) != set(k for k in exp if isinstance(k, tuple) and k[0] != 'site'):
            bad.append('tests %s' % sorted(got))
    st.state((shape, conflict is not None, sorted((k, sorted((n, repr(v)) for n, v in d.items())) for k, d in got.items() if len(k) == 2)))
    st.execution((shape, sel, late, conflict is not None), sample=dict(placement=names, shape=shape, outcome='refused' if conflict else 'accepted'))
    if bad:
        st.violation(what + ': ' + bad[0], dict(placement=names, shape=shape, late=late, problems=bad[:4]))


# ------------------------------------------------------------------------------------------ requirements
KINDS = ['met', 'metT', 'un', 'unM', 'unT', 'unB', 'skip', 'raise']
_EV = []


def REQ(site, kinds):
    def deco(thing):
        for i, k in enumerate(kinds):
            tag = '%s#%d' % (site, i)

            def pred(k=k, tag=tag):
                if k == 'raise':
                    raise ValueError('pred ' + tag)
                if k == 'metT':
                    return (True, 'not shown')
                if k == 'unT':
                    return (False, 'why ' + tag)
                return k == 'met'
            pred.__name__ = 'pred ' + tag
            if k == 'skip':
                thing = slash.skipped('why ' + tag)(thing)
            elif k == 'unB':
                thing = slash.requires(False, 'why ' + tag)(thing)
            elif k == 'unM':
                thing = slash.requires(pred, 'why ' + tag)(thing)
            else:
                thing = slash.requires(pred)(thing)
        return thing
    return deco


def marker(site, k, i):
    return ('pred ' if k == 'un' else 'why ') + '%s#%d' % (site, i)


def FX(name):
    _EV.append(('fixture', name, context.test.__slash__.address_in_file if context.test is not None else None))
    return name


def BODY(name):
    _EV.append(('body', name, context.test.__slash__.address_in_file))


HEAD = 'import functools, slash\nfrom mc.checks import c21\n\n'


class Funcs(object):
    """functions over two files with fixtures of all kinds of use"""
    name = 'functions'
    #: fixture -> (file, deps, autouse)
    fixtures = {'cfx': ('slashconf.py', [], False), 'cau': ('slashconf.py', [], True), 'fau': ('a.py', ['fdep'], True), 'fdep': ('a.py', [], False),
                'fx1': ('a.py', [], False), 'fx2': ('a.py', ['fx1'], False), 'fov': ('a.py', ['cfx'], False)}
    #: test -> (file, direct args, alias, use, nofixtures, params)
    tests = {'test_plain': ('a.py', [], [], [], False), 'test_fx1': ('a.py', ['fx1'], [], [], False), 'test_fx2': ('a.py', ['fx2'], [], [], False),
             'test_use': ('a.py', [], [], ['fx2'], False), 'test_alias': ('a.py', ['fov'], ['fx1'], [], False), 'test_nofix': ('a.py', [], [], [], True),
             'test_param': ('a.py', ['fx1'], [], ['cfx'], False), 'test_w0': ('b.py', [], [], [], False), 'test_w1': ('b.py', [], [], [], False), 'test_w2': ('b.py', [], [], [], False), 'test_b1': ('b.py', ['cfx'], [], [], False), 'test_b2': ('b.py', [], [], [], False)}

    #: tests which wrap the function of another one
    wraps = {'test_w1': 'test_w0', 'test_w2': 'test_w0'}

    def sites(self):
        return list(self.fixtures) + list(self.tests)

    def files(self, reqs):
        out = {f: HEAD for f in ('slashconf.py', 'a.py', 'b.py')}
        for n, (f, deps, auto) in self.fixtures.items():
            out[f] += '%s@slash.fixture(autouse=%r)\ndef %s(%s):\n    return c21.FX(%r)\n\n' % (self.deco(n, reqs, ''), auto, n, ', '.join(deps), n)
        for n, (f, args, alias, use, nofix) in self.tests.items():
            d = self.deco(n, reqs, '')
            if n == 'test_param':
                d = '@slash.parametrize("p", [1, 2])\n' + d
            if use:
                d += '@slash.use_fixtures(%r)\n' % use
            if nofix:
                d += '@slash.nofixtures\n'
            if n in self.wraps:
                d += '@functools.wraps(%s)\n' % self.wraps[n]
            out[f] += d + 'def %s(%s):\n    c21.BODY(%r)\n\n' % (n, ', '.join((['p'] if n == 'test_param' else []) + args + ['al%d: slash.use(%r)' % (i, a) for i, a in enumerate(alias)]), n)
        return out

    def deco(self, site, reqs, ind):
        return ind + '@c21.REQ(%r, %r)\n' % (site, reqs[site]) if site in reqs else ''

    def closure(self, names):
        out = set()
        todo = list(names)
        while todo:
            n = todo.pop()
            if n not in out:
                out.add(n)
                todo += self.fixtures[n][1]
        return out

    def expected(self):
        """address -> (sites that count, fixtures computed when it runs)"""
        res = {}
        for n, (f, args, alias, use, nofix) in self.tests.items():
            auto = [x for x, (ff, d, a) in self.fixtures.items() if a and ff in ('slashconf.py', f)]
            fx = self.closure(args + alias + use + auto)
            for i in range(2 if n == 'test_param' else 1):
                res[n, i] = (fx | {n} | {self.wraps.get(n, n)}, fx)
        return res

    paths = ['a.py', 'b.py']

    def overlooked(self, test):
        """what is known not to be looked at when the requirements of a function are collected, and the name of the finding"""
        f, args, alias, use, nofix = self.tests[test]
        auto = [x for x, (ff, d, a) in self.fixtures.items() if a and ff in ('slashconf.py', f)]
        if nofix:
            return self.closure(auto), 'nofixtures-function-autouse'
        if use:
            return self.closure(use) - self.closure(args + alias + auto), 'function-use_fixtures'
        return set(), None


class Classes(Funcs):
    """class tests: requirements on classes, methods and the fixtures of before, test and after"""
    name = 'classes'
    fixtures = {'f1': ('a.py', [], False), 'f2': ('a.py', ['f1'], False), 'f3': ('a.py', [], False), 'f4': ('a.py', [], False), 'fau': ('a.py', [], True)}
    nofix = ['A.test_o']
    use = {'B.test_u': ['f3']}
    # class -> bases, {method: args}
    classes = [('A', ['slash.Test'], {'before': ['f1'], 'test_m': [], 'test_n': ['f2'], 'test_o': []}),
               ('B', ['A'], {'test_m': ['f3'], 'test_u': [], 'after': ['f4']}),
               ('S', ['A'], {'before': [], 'test_k': ['f4']}),
               ('X', ['object'], {'test_x': []}),
               ('C', ['X', 'B'], {'test_n': []})]

    def sites(self):
        return list(self.fixtures) + [c for c, _, _ in self.classes] + ['%s.%s' % (c, m) for c, _, ms in self.classes for m in ms if m.startswith('test')]

    def files(self, reqs):
        src = HEAD
        for n, (f, deps, auto) in self.fixtures.items():
            src += '%s@slash.fixture(autouse=%r)\ndef %s(%s):\n    return c21.FX(%r)\n\n' % (self.deco(n, reqs, ''), auto, n, ', '.join(deps), n)
        for c, bases, ms in self.classes:
            src += self.deco(c, reqs, '') + 'class %s(%s):\n' % (c, ', '.join(bases))
            for m, args in ms.items():
                src += self.deco('%s.%s' % (c, m), reqs, '    ')
                if '%s.%s' % (c, m) in self.nofix:
                    src += '    @slash.nofixtures\n'
                if '%s.%s' % (c, m) in self.use:
                    src += '    @slash.use_fixtures(%r)\n' % self.use['%s.%s' % (c, m)]
                src += '    def %s(%s):\n        c21.BODY(%r)\n' % (m, ', '.join(['self'] + args), '%s.%s' % (c, m))
            src += '\n'
        return {'a.py': src}

    MRO = {'A': 'A', 'B': 'BA', 'S': 'SA', 'C': 'CXBA'}

    def expected(self):
        ms = {c: m for c, _, m in self.classes}
        res = {}
        for c, mro in self.MRO.items():
            def find(name):
                for k in mro:
                    if name in ms[k]:
                        return k
            for name in {m for k in mro for m in ms[k] if m.startswith('test')}:
                owner = find(name)
                args = ['fau'] + list(ms[owner][name]) + self.use.get('%s.%s' % (owner, name), [])
                for other in ('before', 'after'):
                    o = find(other)
                    if o:
                        args += ms[o][other]
                fx = self.closure(args)
                res['%s.%s' % (c, name), 0] = (set(mro) | {'%s.%s' % (owner, name)} | fx, fx)
        return res
    paths = ['a.py']

    def overlooked(self, test):
        return set(), None


SUITES = {s.name: s for s in (Funcs(), Classes())}


def req_placements(suite, tier):
    sites = SUITES[suite].sites()
    choices = [(s, k) for s in sites for k in KINDS]
    for c in choices:
        yield (c,)
    pair_kinds = KINDS if tier == 'thorough' else ['met', 'un', 'unT', 'skip', 'raise']
    pc = [(s, k) for s in sites for k in pair_kinds]
    for a, b in itertools.combinations_with_replacement(pc, 2):
        if a[1] == b[1] == 'met':
            continue
        yield (a, b)
    if tier == 'thorough':
        pc = [(s, k) for s in sites for k in ('met', 'unM')]
        for sel in itertools.combinations(pc, 3):
            yield sel


def run_reqs(suite, sel, st):
    s = SUITES[suite]
    reqs = {}
    for site, k in sel:
        reqs.setdefault(site, []).append(k)
    d = fresh_dir('c21')
    write_tree(d, s.files(reqs))
    del _EV[:]
    avoided = []
    started = []

    def test_avoided(reason):
        avoided.append((context.test.__slash__.id, reason))

    def test_start():
        started.append(context.test.__slash__.id)
    try:
        out = world.run_session(d, [os.path.join(d, p) for p in s.paths], hooks={'test_start': test_start, 'test_avoided': test_avoided})
    finally:
        shutil.rmtree(d, True)
    bad = []
    exp = s.expected()
    seen = {}
    results = list(out.session.results.iter_test_results()) if out.session is not None else []
    computed = {}
    for e in _EV:
        if e[0] == 'fixture':
            computed.setdefault(e[2], set()).add(e[1])
    bodies = {}
    for e in _EV:
        if e[0] == 'body':
            bodies.setdefault(e[2], []).append(e[1])
    def judge(r, name, sites, fx):
        bad = []
        md = r.test_metadata
        mine = [(site, k, j) for site, ks in reqs.items() if site in sites for j, k in enumerate(ks)]
        unmet = [x for x in mine if x[1] in ('un', 'unM', 'unT', 'unB', 'skip')]
        broken = [x for x in mine if x[1] == 'raise']
        ran = md.id in started
        if broken:
            # not run, and reported as an error: whatever the others say
            if ran or bodies.get(name):
                bad.append('%s ran although checking its requirement raised' % name)
            elif r.is_success() or not r.is_error():
                bad.append('%s is not reported as an error although checking its requirement raised' % name)
        elif unmet:
            st.count('avoided')
            mk = [marker(*x) for x in unmet]
            if ran or bodies.get(name):
                bad.append('%s ran with the unmet requirements %s' % (name, mk))
            if not r.is_skip() or r.is_error() or r.is_failure():
                bad.append('%s is not reported as skipped (unmet: %s)' % (name, mk))
            skips = r.get_skips()
            if len(skips) != len(mk) or any(not any(m in str(x) for x in skips) for m in mk):
                bad.append('%s: reported reasons %s, unmet requirements %s' % (name, skips, mk))
            av = [x for i_, x in avoided if i_ == md.id]
            if len(av) != 1 or any(m not in av[0] for m in mk):
                bad.append('%s: test_avoided notified with %s, unmet requirements %s' % (name, av, mk))
            if computed.get(name):
                bad.append('%s was avoided, but its fixtures %s were computed' % (name, computed[name]))
        else:
            if not ran or not bodies.get(name):
                bad.append('%s did not run although all its requirements are met (%s)' % (name, r.get_skips()))
            elif not r.is_success():
                bad.append('%s: %s' % (name, [e.message for e in r.get_errors()] + list(r.get_skips())))
            elif computed.get(name, set()) != fx:
                bad.append('%s computed %s, expected %s' % (name, computed.get(name), fx))
        return bad

    for r in results:
        md = r.test_metadata
        name = md.address_in_file
        i = seen.get(name, 0)
        seen[name] = i + 1
        if (name, i) not in exp:
            bad.append('unexpected test %s' % name)
            continue
        sites, fx = exp[name, i]
        problems = judge(r, name, sites, fx)
        if problems:
            # a listed finding explains exactly one other behaviour, anything else is a violation of its own
            hidden, key = s.overlooked(name)
            if key and set(reqs) & hidden & sites and not judge(r, name, sites - hidden, fx):
                st.violation('%s: requirements %s on %s: %s' % (key, reqs, suite, problems[0]), dict(suite=suite, requirements=reqs, problems=problems[:4]), key=key)
            else:
                bad += problems
    if not bad and sum(seen.values()) != len(exp):
        bad.append('tests %s, expected %s' % (sorted(seen), sorted(exp)))
    st.state((suite, sorted((k, tuple(v)) for k, v in bodies.items()), sorted((k, sorted(v)) for k, v in computed.items())))
    st.execution((suite, sorted(reqs.items()), sorted(r for _, r in avoided)), sample=dict(suite=suite, requirements=reqs, avoided=[r for _, r in avoided]))
    if bad:
        st.violation('requirements %s on %s: %s' % (reqs, suite, bad[0]), dict(suite=suite, requirements=reqs, problems=bad[:4]))


NT, NR = 24, 48


def bound(tier):
    return ('tags: all placements of at most %d tags (5 kinds) on 6 class hierarchies, put on at definition or afterwards; requirements: all placements of at most %d '
            'requirements (8 kinds) on two suites of functions, classes and fixtures' % ((3, 3) if tier == 'thorough' else (2, 2)) + '; 3 tags on the smaller hierarchies')


def tasks(tier):
    for s in SUITES:
        for k in range(NR):
            yield ['reqs', tier, s, k]
    for s in SHAPES:
        for k in range(NT):
            yield ['tags', tier, s, k]


def run_task(task, st):
    fam, tier, name, k = task
    if fam == 'tags':
        depth = 3 if tier == 'thorough' or len(shape_sites(name)) <= 5 else 2
        items = ((sel, late) for sel in placements(name, depth) for late in (False, True))
        n = NT
        f = lambda it: run_tags(name, it[0], it[1], st)
    else:
        items = req_placements(name, tier)
        n = NR
        f = lambda it: run_reqs(name, it, st)
    for i, it in enumerate(items):
        if i % n == k:
            f(it)
            if len(st.new_violations()) > 2:
                return
