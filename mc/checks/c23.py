"""C23: all small call chains (ways a failure arises x ways it passes the functions above x places where a test can fail), run in real
sessions; every recorded error is compared with the frames, lines, values and texts which the generated source says."""
import itertools, os, shutil
from .. import env, world
from ..world import fresh_dir, write_tree
import slash

PROPERTY = 'C23'
ASSUMPTIONS = ['only frames of the code of the user are judged', 'an error added for an exception which is being handled names the frames between the handler and its origin']
MINIMUMS = {'executions': 3000, 'errors': 3000, 'frames': 8000}


class BadRepr(object):
    def __repr__(self):
        raise ValueError('no representation')


class BadReprError(Exception):
    def __repr__(self):
        raise ValueError('no representation')


class AttrError(Exception):
    def __init__(self, msg):
        super(AttrError, self).__init__(msg)
        self.number, self.text, self.thing, self.bad = 7, 'abc', [1, 2], BadRepr()

    @property
    def prop(self):
        raise ValueError('no property')

    def __reduce__(self):
        raise TypeError('not picklable')


HOPS = ['call', 'hx', 'hsw', 'rr', 're', 'ff', 'cm', 'gen', 'lam', 'fin']
HOPS_QUICK = ['call', 'hx', 'hsw', 're', 'ff', 'gen']
LEAVES = ['raise', 'assert', 'add', 'addfail', 'addc', 'addexc', 'addx', 'addobj', 'addbad', 'should', 'expect', 'corr', 'attrs', 'badrepr', 'attrerror', 'fatal', 'multi']
SITES = ['func', 'method', 'before', 'after', 'fixture', 'modfixture', 'cleanup', 'hook', 'param', 'wrapped', 'teardown']

HEAD = '''import slash, contextlib, functools
from slash.exception_handling import handling_exceptions, mark_exception_frame_correction, mark_exception_fatal
from mc.checks import c23
HOOK = {}

@contextlib.contextmanager
def cm():
    yield

def wrapping(f):
    @functools.wraps(f)
    def wrapper():
        return f()  # @wrapper
    return wrapper

@slash.hooks.test_start.register
def on_start():
    f = HOOK.get(slash.context.test.__slash__.factory_name)
    if f is not None:
        f()  # @on_start

'''

LEAF_SRC = {
    'raise': 'raise ValueError("m")  # @%s',
    'assert': 'assert mark == 0  # @%s',
    'add': 'slash.add_error("m")  # @%s',
    'addfail': 'slash.add_failure("m")  # @%s',
    'addc': 'slash.add_error("m", frame_correction=1)  # @%s',
    'addexc': 'try:\n        raise ValueError("m")  # @%s\n    except ValueError:\n        slash.add_error()',
    'addx': 'try:\n        raise ValueError("m")  # @%s\n    except ValueError:\n        slash.add_failure("other")  # @%s.add',
    'addobj': 'slash.add_error(c23.BadReprFree())  # @%s',
    'addbad': 'slash.add_error(c23.BadRepr())  # @%s',
    'should': 'slash.assert_almost_equal(1, 2)  # @%s',
    'expect': 'with slash.assert_raises(ValueError, "m"):  # @%s\n        pass',
    'corr': 'raise mark_exception_frame_correction(ValueError("m"))  # @%s',
    'attrs': 'raise c23.AttrError("m")  # @%s',
    'badrepr': 'raise c23.BadReprError("m")  # @%s',
    'attrerror': 'bad = c23.BadRepr()\n    raise ValueError("m")  # @%s',
    'fatal': 'raise mark_exception_fatal(ValueError("m"))  # @%s',
    'multi': 'raise ValueError(\n        "m"\n    )  # @%s.end',
}


class BadReprFree(object):
    def __repr__(self):
        return 'thing'


def hop_src(style, name, callee):
    c = '%s()  # @%s' % (callee, name)
    return {
        'call': '    %s\n' % c,
        'hx': '    with handling_exceptions():\n        %s\n' % c,
        'hsw': '    with handling_exceptions(swallow=True):\n        %s\n' % c,
        'rr': '    try:\n        %s\n    except Exception:\n        raise\n' % c,
        're': '    try:\n        %s\n    except Exception as e:\n        raise e  # @%s.re\n' % (c, name),
        'ff': '    try:\n        %s\n    except Exception as e:\n        raise KeyError("n") from e  # @%s.ff\n' % (c, name),
        'cm': '    with cm():\n        %s\n' % c,
        'fin': '    try:\n        %s\n    finally:\n        mark = %r\n' % (c, name),
        'gen': '    def g():\n        mark = "g"\n        yield %s()  # @%s.g\n    for _ in g():  # @%s\n        pass\n' % (callee, name, name),
        'lam': '    (lambda: %s())()  # @%s\n' % (callee, name),
    }[style]


def site_src(k, site, fn):
    """-> source, the frames of the site itself [(function, marker)], the name of the test, whether the outermost frame is that of the test"""
    m = 's%d' % k
    body = '    mark = %r\n    %s()  # @%s\n' % (m, fn, m)
    ind = body.replace('    mark', '        mark').replace('    %s()' % fn, '        %s()' % fn)
    t = 'test_%04d' % k
    if site == 'func':
        return 'def %s():\n%s' % (t, body), [(t, m)], True
    if site == 'param':
        return '@slash.parametrize("x", [1])\n@slash.tag("a")\ndef %s(x):\n%s' % (t, body), [(t, m)], True
    if site == 'wrapped':
        return '@wrapping\ndef %s():\n%s' % (t, body), [('wrapper', 'wrapper'), (t, m)], None
    if site == 'fixture':
        return '@slash.fixture\ndef fx%d():\n%s\ndef %s(fx%d):\n    pass\n' % (k, body, t, k), [('fx%d' % k, m)], False
    if site == 'modfixture':
        return '@slash.fixture(scope="module")\ndef fx%d():\n%s\ndef %s(fx%d):\n    pass\n' % (k, body, t, k), [('fx%d' % k, m)], False
    if site == 'teardown':
        return '@slash.yield_fixture\ndef fx%d():\n    yield\n%s\ndef %s(fx%d):\n    pass\n' % (k, body, t, k), [('fx%d' % k, m)], False
    if site == 'cleanup':
        return 'def cl%d():\n%s\ndef %s():\n    slash.add_cleanup(cl%d)\n' % (k, body, t, k), [('cl%d' % k, m)], False
    if site == 'hook':
        return 'def hk%d():\n%s\nHOOK[%r] = hk%d\ndef %s():\n    pass\n' % (k, body, t, k, t), [('on_start', 'on_start'), ('hk%d' % k, m)], False
    names = {'before': 'before', 'method': 'test_m', 'after': 'after'}
    src = 'class %s(slash.Test):\n' % t.capitalize()
    for s in ('before', 'method', 'after'):
        src += '    def %s(self):\n%s' % (names[s], ind if s == site else '        pass\n')
    return src, [(names[site], m)], site == 'method'


def build(k, hops, leaf, site):
    """-> source of one program, the expected errors [(type or None, message, kind, frames)]"""
    n = len(hops)
    fns = ['h%d_%d' % (k, i) for i in range(n + 1)]
    src = ''
    for i in range(n):
        src += 'def %s():\n    mark = %r\n%s\n' % (fns[i], fns[i], hop_src(hops[i], fns[i], fns[i + 1]))
    src += 'def %s():\n    mark = %r\n    %s\n\n' % (fns[n], fns[n], LEAF_SRC[leaf].replace('%s', fns[n]))
    s, outer, intest = site_src(k, site, fns[0])
    src += s + '\n'
    outer = list(outer)
    stack = []          # frames above each function while it runs
    for i in range(n):
        if hops[i] == 'gen':
            stack.append([(fns[i], fns[i]), ('g', fns[i] + '.g')])
        elif hops[i] == 'lam':
            stack.append([(fns[i], fns[i]), ('<lambda>', fns[i])])
        else:
            stack.append([(fns[i], fns[i])])

    def above(i):
        return outer + [f for s in stack[:i] for f in s]
    here = [(fns[n], fns[n])]
    errors = []
    cur = None
    if leaf in ('add', 'addfail', 'addobj', 'addbad'):
        errors.append((None, {'addobj': 'thing', 'addbad': "[Unprintable 'BadRepr' object]"}.get(leaf, 'm'), 'failure' if leaf == 'addfail' else 'error', above(n) + here, {}))
    elif leaf == 'addc':
        errors.append((None, 'm', 'error', above(n), {}))
    elif leaf == 'addexc':
        errors.append(('ValueError', 'ValueError: m', 'error', here, {}))
    elif leaf == 'addx':
        errors.append((None, 'other', 'failure', above(n) + [(fns[n], fns[n] + '.add')], {}))
    else:
        tp = {'assert': 'AssertionError', 'should': 'AssertionError', 'expect': 'ExpectedExceptionNotCaught', 'attrs': 'AttrError', 'badrepr': 'BadReprError'}.get(leaf, 'ValueError')
        cur = dict(type=tp, tb=list(here), handled=False, leaf=leaf, msg='m')
    def record(exc, i):
        frames = above(i) + exc['tb'] if i else outer + exc['tb']
        if exc['leaf'] == 'corr':
            frames = frames[:-1]
        exc['handled'] = True
        exc['inner'] = list(exc['tb'])
        errors.append((exc['type'], exc['msg'], 'failure' if exc['type'] in ('AssertionError', 'ExpectedExceptionNotCaught') else 'error', frames, exc))
    for i in range(n - 1, -1, -1):
        if cur is None:
            break
        if hops[i] == 'ff':
            cur = dict(type='KeyError', tb=[(fns[i], fns[i] + '.ff')], handled=False, leaf=None, msg='n')
            continue
        cur['tb'] = stack[i] + cur['tb']
        if hops[i] == 're':
            cur['tb'] = [(fns[i], fns[i] + '.re')] + cur['tb']
        if hops[i] in ('hx', 'hsw'):
            if not cur['handled']:
                record(cur, i)
            if hops[i] == 'hsw':
                cur = None
    if cur is not None and not cur['handled']:
        record(cur, 0)
    return src, errors, intest


def programs(tier):
    deep = tier == 'thorough'
    for site in SITES:
        for leaf in LEAVES:
            some = leaf in ('raise', 'add', 'addc', 'corr') and site in ('func', 'fixture', 'cleanup', 'method', 'hook')
            for n in range(4):
                if leaf == 'fatal' and n > 1 and not deep:
                    continue
                for hops in itertools.product(HOPS if n < 2 or (n == 2 and (deep or some)) or (n == 3 and deep and some) else HOPS_QUICK, repeat=n):
                    if n < 3 or deep or some:
                        yield hops, leaf, site


def run_batch(progs, st):
    src, expected = HEAD, {}
    for k, (hops, leaf, site) in enumerate(progs):
        s, errors, intest = build(k, hops, leaf, site)
        src += s + '\n'
        expected[('Test_%04d' if site in ('method', 'before', 'after') else 'test_%04d') % k] = (k, hops, leaf, site, errors, intest)
    d = fresh_dir('c23')
    write_tree(d, {'a.py': src})
    path = os.path.realpath(os.path.join(d, 'a.py'))
    lines = src.split('\n')
    where = {}
    for no, line in enumerate(lines):
        if '# @' in line:
            where[line.split('# @')[1].strip()] = no + 1
    # a raise statement over several lines starts where it starts
    for m in list(where):
        if m.endswith('.end'):
            where[m[:-4]] = where.pop(m) - 2
    firsts = {}
    try:
        world.reset_hooks()
        out = world.run_session(d, [path])
        bad = []
        if out.session is None:
            st.violation('the session did not start: %r' % (out.raised,), dict(source=src[:2000]))
            return
        seen = set()
        for r in out.session.results.iter_test_results():
            name = r.test_metadata.factory_name
            if name not in expected:
                st.violation('unexpected test %s' % name, {})
                continue
            seen.add(name)
            k, hops, leaf, site, exp, intest = expected[name]
            got = [('error', e) for e in r.get_errors()] + [('failure', e) for e in r.get_failures()]
            known = []
            problems = judge(got, exp, where, lines, path, name, site, intest, st, known)
            st.state((hops, leaf, site))
            st.execution((hops, leaf, site), sample=dict(chain=hops, leaf=leaf, site=site, errors=len(got)))
            if problems:
                st.violation('%s at the end of %s in a %s: %s' % (leaf, list(hops), site, problems[0]), dict(problems=problems[:5], source=build(k, hops, leaf, site)[0]))
            elif known:
                st.violation('failure-in-nested-context: %s at the end of %s in a %s: %s' % (leaf, list(hops), site, known[0]), dict(problems=known), key='failure-in-nested-context')
        if seen != set(expected) and not any(p[1] == 'fatal' for p in progs):
            st.violation('%s did not run (exit code %s)' % (sorted(set(expected) - seen)[:3], out.exit_code), dict(report=out.report.getvalue()[-500:]))
        for e in out.session.results.global_result.get_errors():
            st.violation('session error: %s' % e.message, {})
    finally:
        shutil.rmtree(d, True)


def judge(got, exp, where, lines, path, name, site, intest, st, known):
    bad = []
    if len(got) != len(exp):
        return ['%d errors %s instead of %s' % (len(got), [str(e.message)[:80] for _, e in got], [(x[0], x[1]) for x in exp])]
    # within each kind errors are in order
    exp = [x for x in exp if x[2] == 'error'] + [x for x in exp if x[2] == 'failure']
    for (kind, e), (tp, msg, want, frames, exc) in zip(got, exp):
        st.count('errors')
        if kind != want or e.is_failure() != (want == 'failure'):
            bad.append('recorded as %s (is_failure %s) instead of %s' % (kind, e.is_failure(), want))
        if (None if e.exception_type is None else e.exception_type.__name__) != tp:
            bad.append('exception type %s instead of %s' % (e.exception_type, tp))
        if exc and exc['leaf'] in ('assert', 'should', 'expect'):
            pass
        elif exc:
            if msg not in e.message or tp not in e.message:
                bad.append('message %r' % e.message)
            if exc['leaf'] != 'badrepr' and e.exception_str != '%s(%r)' % (tp, msg):
                bad.append('exception text %r' % e.exception_str)
        elif e.message != msg:
            bad.append('message %r instead of %r' % (e.message, msg))
        if e.is_fatal() != bool(exc and exc['leaf'] == 'fatal'):
            bad.append('fatal: %s' % e.is_fatal())
        mine = [f for f in e.traceback.frames if os.path.realpath(f.filename) == path]
        st.count('frames', len(mine))
        seq = [(f.func_name, f.lineno) for f in mine]
        should = [(fn, where[m]) for fn, m in frames]
        if seq != should:
            # the other behaviour of the listed finding: a failure lacks the frames outside of the context which handled it
            if kind == 'failure' and exc and seq == [(fn, where[m]) for fn, m in exc['inner']]:
                known.append('frames %s instead of %s' % (seq, should))
            else:
                bad.append('frames %s instead of %s' % (seq, should))
            continue
        if should and not (exc and exc['leaf'] == 'corr'):
            last = e.traceback.frames[-1]
            if last is not mine[-1]:
                bad.append('the last frame is %s:%s %s' % (last.filename, last.lineno, last.func_name))
            elif (e.lineno, e.func_name, os.path.realpath(e.filename)) != (should[-1][1], should[-1][0], path):
                bad.append('located at %s:%s %s' % (e.filename, e.lineno, e.func_name))
        for f, (fn, m) in zip(mine, frames):
            if f.code_line.strip() != lines[f.lineno - 1].strip():
                bad.append('line %s shown as %r' % (f.lineno, f.code_line))
            if f.code_string and not f.code_string.rstrip('\n').endswith(lines[f.lineno - 1]):
                bad.append('code of %s ends with %r' % (fn, f.code_string[-60:]))
            if f.python_frame is not None:
                bad.append('the frame of %s is kept alive' % fn)
            dct = f.to_dict()
            loc = dct['locals'].get('mark', {}).get('value')
            owner = m.split('.')[0]
            if fn not in ('<lambda>', 'g', 'wrapper', 'on_start') and loc != repr(owner):
                bad.append('variables of %s: mark is %s' % (fn, loc))
            if (dct['filename'], dct['lineno'], dct['func_name'], dct['code_line']) != (f.filename, f.lineno, f.func_name, f.code_line):
                bad.append('to_dict: %s' % dct)
            code = (fn == name or (site == 'method' and fn == 'test_m'))
            if intest is not None and f.is_in_test_code() != (code and bool(intest)):
                bad.append('%s is in the code of the test: %s' % (fn, f.is_in_test_code()))
        text = e.get_detailed_traceback_str()
        pos = 0
        for fn, no in should:
            p = text.find('line %d, in %s:' % (no, fn), pos)
            if p < 0:
                bad.append('the detailed text does not show line %d in %s (in order)' % (no, fn))
                break
            pos = p + 1
        if exc and exc['leaf'] == 'attrs':
            a = e._exception_attributes
            if (a.get('number'), a.get('text')) != (7, 'abc') or a.get('thing') != '[1, 2]' or 'Unprintable' not in str(a.get('bad')):
                bad.append('attributes %s' % a)
    return bad


BATCH = 40


def batches(tier):
    ps = list(programs(tier))
    fatal = [p for p in ps if p[1] == 'fatal']
    rest = [p for p in ps if p[1] != 'fatal']
    for i in range(0, len(rest), BATCH):
        yield rest[i:i + BATCH]
    for p in fatal:
        yield [p]


NPART = 64


def bound(tier):
    return 'chains of up to 4 functions x %d ways of passing a failure on (6 of them in chains of 3%s) x %d kinds of failures x %d places; all 10 for %s' % (
        len(HOPS), '' if tier == 'thorough' else ' and 4; chains of 4 for 4 kinds and 5 places', len(LEAVES), len(SITES), 'chains of 3, and of 4 for 4 kinds and 5 places' if tier == 'thorough' else 'chains of 3 for 4 kinds and 5 places')


def tasks(tier):
    for k in range(NPART):
        yield [tier, k]


def run_task(task, st):
    tier, k = task
    for i, b in enumerate(batches(tier)):
        if i % NPART != k:
            continue
        run_batch(b, st)
        if len(st.new_violations()) > 3:
            return
