"""C13: all sequences of sources (paths, addresses, suite files, folders) and all small suite files, with repeats and filters, run and
listed for real and compared with a reference expansion."""
import io, itertools, os, re, shutil
from munch import Munch
from .. import env, world
from ..world import fresh_dir, write_tree, isolated
import slash
from slash.ctx import context

PROPERTY = 'C13'
ASSUMPTIONS = ['a file or folder without any test, next to other sources, may be silently empty']
MINIMUMS = {'executions': 2500, 'refused': 200, 'selected': 10000, 'listed': 400}

_EV = []


def T(name, x=None):
    _EV.append((context.test.__slash__.id, name, x))


HEAD = 'import slash\nfrom mc.checks import c13\n'
FILES = {
    'a.py': HEAD + '''
def test_b():
    c13.T('test_b')

def helper():
    raise Exception()

class TestC(slash.Test):
    def test_n(self):
        c13.T('TestC.test_n')
    def test_m(self):
        c13.T('TestC.test_m')
    def helper(self):
        raise Exception()

@slash.parametrize('x', [1, 2])
def test_p(x):
    c13.T('test_p', x)

def test_a():
    c13.T('test_a')
''',
    'b.py': HEAD + '''
@slash.repeat(2)
def test_r():
    c13.T('test_r')

def test_q():
    c13.T('test_q')
''',
    'empty.py': 'x = 1\n',
    'sub/c.py': HEAD + '''
def test_c1():
    c13.T('test_c1')

class TestD(slash.Test):
    @slash.parametrize('x', ['u', 'v'])
    def test_a(self, x):
        c13.T('TestD.test_a', x)
''',
    'sub/z/d.py': HEAD + '''
def test_d1():
    c13.T('test_d1')
''',
    'sub/.hid/h.py': HEAD + '''
def test_h():
    c13.T('test_h')
''',
    'sub/notes.txt': 'not a test\n',
    'none/notes.txt': 'c.py\n',
    'bad/x_syntax.py': 'def test_x(:\n',
    'bad2/x_import.py': 'import nosuchmodule_\ndef test_x():\n    pass\n',
    'bad3/x_raise.py': 'def test_x():\n    pass\nraise ValueError("at import")\n',
    'bad4/x_skip.py': 'import slash\ndef test_x():\n    pass\nslash.skip_test("at import")\n',
    'bad5/x_fixture.py': 'def test_x(nofixture):\n    pass\n',
    'bad6/x_exit.py': 'import sys\ndef test_x():\n    pass\nsys.exit(0)\n',
    'bad7/x_assert.py': 'def test_x():\n    pass\nassert 1 == 2\n',
    'bad8/slashconf.py': 'raise ValueError("conf")\n', 'bad8/ok.py': 'def test_ok():\n    pass\n',
    'in sub/with space.py': HEAD + '''
def test_s():
    c13.T('test_s')
''',
    # suite files
    'suites/one.txt': '../a.py:test_a\n\n# comment\n   \n../b.py # filter: test_q\n',
    'suites/deep/two.txt': '../../sub/c.py\n',
    'suites/deep/ree/three.txt': '../../../sub/z # repeat: 2\n',
    'nested.txt': 'sub/inner.txt\na.py:test_b\n',
    'sub/inner.txt': 'c.py:TestD # filter: x=u\nz/d.py\n',
}
#: file -> [(address in file, x, times)]
TESTS = {
    'a.py': [('TestC.test_m', None, 1), ('TestC.test_n', None, 1), ('test_a', None, 1), ('test_b', None, 1), ('test_p', 1, 1), ('test_p', 2, 1)],
    'b.py': [('test_q', None, 1), ('test_r', None, 2)],
    'empty.py': [],
    'sub/c.py': [('TestD.test_a', 'u', 1), ('TestD.test_a', 'v', 1), ('test_c1', None, 1)],
    'sub/z/d.py': [('test_d1', None, 1)],
    'in sub/with space.py': [('test_s', None, 1)],
}
BAD = [f for f in FILES if re.match(r'bad\d?/', f)]


class Refused(Exception):
    pass


def norm(base, p):
    return os.path.normpath(os.path.join(base, p))


def ref_files(path):
    """path relative to the root"""
    if path in FILES:
        return [path] if path.endswith('.py') else []
    pre = '' if path == '.' else path + '/'
    inside = [f for f in FILES if f.startswith(pre) and f.endswith('.py') and not any(part.startswith('.') for part in f[len(pre):].split('/'))]
    if not any(f.startswith(pre) for f in FILES):
        raise Refused('no such path ' + path)

    def key(f):
        parts = f[len(pre):].split('/')
        # the files of a folder come before its sub-folders
        return [(1, x) for x in parts[:-1]] + [(0, parts[-1])]
    return sorted(inside, key=key)


def address(f, t):
    return '%s:%s' % (f, t[0]) + ('(x=%s)' % t[1] if t[1] is not None else '')


def matches(filt, f, t):
    if filt is None:
        return True
    neg = filt.startswith('not ')
    term = filt[4:] if neg else filt
    return (term in address(f, t)) != neg


def ref_source(src, base):
    """[(file, test)] denoted by a path or address"""
    path, sep, addr = src.partition(':')
    path = norm(base, path)
    out = []
    for f in ref_files(path):
        if f not in TESTS:
            raise Refused('cannot load ' + f)
        out += [(f, t) for t in TESTS[f]]
    if sep:
        sel = [(f, t) for f, t in out if t[0] == addr or t[0].split('.')[0] == addr]
        if not sel:
            raise Refused('nothing matches ' + src)
        return sel
    return out


def ref_lines(text, base):
    out = []
    for line in text.split('\n'):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        filt, rep = None, 1
        if '#' in line:
            line, rest = line.split('#', 1)
            line = line.strip()
            for part in rest.split(','):
                k, _, v = part.strip().partition(':')
                v = v.strip()
                if k == 'filter':
                    filt = v
                    if '(' in v:
                        raise Refused('filter')
                elif k == 'repeat':
                    if not v.isdigit():
                        raise Refused('repeat')
                    rep = int(v)
        for _ in range(rep):
            p = norm(base, line.split(':')[0])
            if p.endswith('.txt'):
                sel = ref_suite(p)
            else:
                sel = ref_source(line, base)
            out += [(f, t) for f, t in sel if matches(filt, f, t)]
    return out


def ref_suite(path):
    if path in FILES and not path.startswith('.'):
        return ref_lines(FILES[path], os.path.dirname(path) or '.')
    inside = sorted(f for f in FILES if f.startswith(path + '/'))
    if not inside:
        raise Refused('no suite file ' + path)
    # any fixed order of the files will do, each of them once: folders here have one order under all natural sortings
    return [x for f in inside for x in ref_suite(f)]


def reference(args, cwd, repeat_each, repeat_all, filters):
    out = []
    for kind, a in sorted(args, key=lambda x: x[0] == '-f'):
        out += ref_suite(norm(cwd, a)) if kind == '-f' else ref_source(a, cwd)
    out = [(f, t) for f, t in out if all(matches(x, f, t) for x in filters)]
    out = [(f, t) for f, t in out for _ in range(t[2] * repeat_each)]
    listed = list(out)
    if not out:
        raise Refused('nothing selected')
    return out * repeat_all


_ROOT = {}


def root():
    """the tree is written once per process"""
    if 'd' not in _ROOT or not os.path.isdir(_ROOT['d']):
        d = fresh_dir('c13')
        write_tree(d, FILES)
        os.makedirs(os.path.join(d, 'vacant'))
        _ROOT['d'] = os.path.realpath(d)
    return _ROOT['d']


def show(sel):
    return ['%s%s' % (f + ':' + t[0], '' if t[1] is None else '(%s)' % t[1]) for f, t in sel]


def one(args, st, cwd='.', absolute=False, repeat_each=1, repeat_all=1, filters=(), suite=None, listing=True, via_config=False):
    d = root()
    if suite is not None:
        FILES['gen.txt'] = suite
        with open(os.path.join(d, 'gen.txt'), 'w') as f:
            f.write(suite)
    try:
        want = reference(args, cwd, repeat_each, repeat_all, filters)
    except Refused as e:
        want = e
    finally:
        FILES.pop('gen.txt', None)
    what = 'sources %s%s%s%s%s%s' % (args, ' in %s' % cwd if cwd != '.' else '', ' absolute' if absolute else '', ' suite file %r' % suite if suite is not None else '',
                                     ' repeat %d/%d' % (repeat_each, repeat_all) if (repeat_each, repeat_all) != (1, 1) else '', ' filters %s' % (filters,) if filters else '')
    argv = []
    config = {}
    for kind, a in args:
        p = os.path.join(d, cwd, a) if absolute else a
        if kind == '-f':
            if via_config:
                config.setdefault('run.suite_files', []).append(p)
            else:
                argv += ['-f', p]
        elif via_config:
            config.setdefault('run.default_sources', []).append(p)
        else:
            argv.append(p)
    for x in filters:
        argv += ['-k', x]
    run_argv = list(argv)
    if repeat_each != 1:
        run_argv += ['--repeat-each', str(repeat_each)]
    if repeat_all != 1:
        run_argv += ['--repeat-all', str(repeat_all)]
    del _EV[:]
    wd = os.path.join(d, cwd)
    old = os.getcwd()
    os.chdir(wd)
    bad = []
    listed = None
    try:
        out = world.run_session(wd, run_argv, config=config)
        ev = list(_EV)
        if listing and repeat_each == repeat_all == 1 and 'run.suite_files' not in config:
            os.chdir(wd)
            listed = slash_list(argv, wd, config)
    finally:
        os.chdir(old)
        if suite is not None:
            os.unlink(os.path.join(d, 'gen.txt'))
    results = list(out.session.results.iter_test_results()) if out.session is not None else []
    if isinstance(want, Refused):
        st.count('refused')
        if ev or results:
            bad.append('%s: ran %s, expected a refusal' % (want, [e[1:] for e in ev]))
        elif out.exit_code == 0:
            bad.append('%s: the exit code is 0' % want)
        if listed is not None and (listed[0] == 0 or listed[1]) and str(want) != 'nothing selected':
            bad.append('%s: slash list gives %s' % (want, listed))
    else:
        st.count('selected', len(want))
        by_id = {r.test_metadata.id: r for r in results}
        ran = []
        for i, name, x in ev:
            md = by_id[i].test_metadata
            ran.append((os.path.relpath(os.path.join(wd, md.file_path), d), (name, x)))
            if md.address_in_file != name or list(md.variation.values.values()) != ([x] if x is not None else []):
                bad.append('%s(%s) is reported as %s' % (name, x, md.address))
        exp = [(f, (t[0], t[1])) for f, t in want]
        if ran != exp:
            bad.append('ran %s, expected %s' % (show(ran), show(exp)))
        elif len(results) != len(want) or len(by_id) != len(results) or [r.test_metadata.id for r in results] != [e[0] for e in ev]:
            bad.append('%d results, %d distinct, for %d selected tests' % (len(results), len(by_id), len(want)))
        elif out.exit_code != 0:
            bad.append('exit code %s' % out.exit_code)
        if listed is not None:
            st.count('listed')
            exp = [address(f, t) for f, t in want]
            got = []
            for line in listed[1]:
                f, _, rest = line.partition(':')
                got.append('%s:%s' % (os.path.relpath(os.path.join(wd, f), d), rest))
            if listed[0] != 0 or got != exp:
                bad.append('slash list returned %s and listed %s, expected %s' % (listed[0], got, exp))
    st.state((tuple(e[1:] for e in ev)))
    st.execution((args, cwd, absolute, repeat_each, repeat_all, filters, suite, [e[1:] for e in ev]), sample=dict(sources=args, suite=suite, ran=[e[1:] for e in ev][:10]))
    if bad:
        st.violation(what + ': ' + bad[0], dict(args=args, suite=suite, problems=bad[:3]))


def slash_list(argv, wd, config):
    """(return code, lines)"""
    from slash.frontend.slash_list import slash_list as real
    import contextlib
    out, err = io.StringIO(), io.StringIO()
    with isolated(), contextlib.redirect_stderr(err):
        cfg = {'run.project_customization_file_path': os.path.join(wd, '.slashrc'), 'run.user_customization_file_path': os.path.join(wd, '.nouser')}
        for k, v in config.items():
            cfg[k] = v
        for k, v in cfg.items():
            slash.config.assign_path(k, v)
        try:
            rc = real(Munch(argv=['--only-tests', '--show-duplicates', '--no-color'] + argv, cmd='list'), report_stream=out, error_stream=err)
        except BaseException as e:
            rc = repr(e)
    return rc, [l for l in out.getvalue().split('\n') if l]


SOURCES = ['a.py', 'b.py', 'sub', 'sub/', './sub/z', 'sub/c.py', 'in sub', 'in sub/with space.py', 'a.py:test_a', 'a.py:TestC', 'a.py:TestC.test_m', 'a.py:test_p', 'sub:test_d1', 'sub/c.py:TestD.test_a',
           'sub/.hid/h.py:test_h', 'empty.py', 'none', 'sub/notes.txt', 'missing.py', 'missing', 'a.py:nope', 'a.py:TestC.nope', 'a.py:test', 'a.py:', 'a.py:helper', 'empty.py:test_a', 'sub:nope', 'bad', 'a.py:test_a/']
TESTS['sub/.hid/h.py'] = [('test_h', None, 1)]
SUITE_SOURCES = ['suites/one.txt', 'nested.txt', 'suites/deep/two.txt', 'suites', 'suites/deep', 'none', 'missing.txt']
LINES = ['a.py', 'a.py:test_a', './sub', 'sub/c.py # filter: not test_c1', 'b.py # repeat: 2', 'a.py:TestC # filter: test_n, repeat: 3', '# comment', '', '   ', 'nested.txt', 'nested.txt # filter: test_a',
         'nested.txt # repeat: 2', 'sub/inner.txt', 'suites/one.txt#repeat:2,filter:not test_q', 'missing.py', 'a.py:nope', 'a.py # just a comment', 'missing.txt', 'b.py # repeat: 0', 'a.py # repeat: x', 'a.py # filter: (',
         '  b.py:test_r  ', 'none', 'sub/z/../c.py:test_c1', 'bad3']


def as_arg(s):
    return ('-f', s[3:]) if s.startswith('-f ') else ('path', s)


def jobs(tier):
    alls = SOURCES + ['-f ' + s for s in SUITE_SOURCES]
    for s in alls:
        for cwd in ('.', 'sub', 'in sub'):
            for absolute in (False, True):
                if cwd != '.':
                    rel = os.path.relpath(s[3:] if s.startswith('-f ') else s, cwd) if ':' not in s else os.path.relpath(s.split(':')[0], cwd) + ':' + s.split(':', 1)[1]
                    a = ('-f' if s.startswith('-f ') else 'path', rel)
                else:
                    a = as_arg(s)
                yield dict(args=[a], cwd=cwd, absolute=absolute)
                yield dict(args=[a], cwd=cwd, absolute=absolute, via_config=True)
    for f in BAD:
        for others in ([], ['a.py'], ['a.py', 'b.py']):
            for i in range(len(others) + 1):
                for b in (f, os.path.dirname(f)):
                    yield dict(args=[('path', x) for x in others[:i] + [b] + others[i:]])
    for a, b in itertools.product(alls, repeat=2):
        yield dict(args=[as_arg(a), as_arg(b)], listing=tier == 'thorough' or (len(a) + len(b)) % 3 == 0)
    good = [s for s in SOURCES[:15]] + ['-f ' + s for s in SUITE_SOURCES[:4]]
    for k in (1, 2):
        for sel in itertools.product(good, repeat=k):
            for re_, ra in ((2, 1), (1, 2), (2, 3), (1, 4)):
                if k == 2 and tier == 'quick' and re_ + ra > 3:
                    continue
                for filters in ((), ('test_a',), ('not test_', ), ('not TestC', 'not x=1')):
                    if k == 2 and (filters and tier == 'quick'):
                        continue
                    yield dict(args=[as_arg(x) for x in sel], repeat_each=re_, repeat_all=ra, filters=filters)
    for sel in itertools.product(good[:12], repeat=2):
        for filters in (('test_a',), ('not TestC', 'not x=1'), ('not nothing',)):
            yield dict(args=[as_arg(x) for x in sel], filters=filters)
    for k in range(1, 3 if tier == 'quick' else 4):
        for lines in itertools.product(LINES, repeat=k):
            yield dict(args=[('-f', 'gen.txt')], suite='\n'.join(lines) + '\n' * (k % 2), listing=k < 3)
    for a in SOURCES[:6]:
        for line in LINES[:8]:
            yield dict(args=[('-f', 'gen.txt'), ('path', a)], suite=line)
            yield dict(args=[('path', a), ('-f', 'gen.txt'), ('-f', 'gen.txt')], suite=line)
    if tier == 'thorough':
        for sel in itertools.product(alls[:14] + alls[-7:-2], repeat=3):
            yield dict(args=[as_arg(x) for x in sel], listing=False)


NPART = 64


def bound(tier):
    return ('%d sources alone (3 working folders, absolute and relative, from the command line and the configuration) and in all ordered pairs%s; with repeats and filters; all suite files of at most %d lines of %d; '
            '8 kinds of unloadable files among others' % (len(SOURCES) + len(SUITE_SOURCES), ' and triples of 19' if tier == 'thorough' else '', 3 if tier == 'thorough' else 2, len(LINES)))


def tasks(tier):
    for k in range(NPART):
        yield ['jobs', tier, k]


def run_task(task, st):
    _, tier, k = task
    for i, j in enumerate(jobs(tier)):
        if i % NPART == k:
            one(st=st, **j)
            if len(st.violations) > 2:
                break
    shutil.rmtree(_ROOT.pop('d', '/nonexistent'), True)
