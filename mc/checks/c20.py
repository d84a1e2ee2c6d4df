"""C20: the xunit file and the console summary of real sessions, read back with a strict XML parser, against the results themselves: all
outcome vectors of up to three tests x console settings, and every hostile text in every place which reaches a report."""
import io, itertools, os, re, shutil
import xml.etree.ElementTree as ET
import gossip
import slash
from .. import world
from ..world import fresh_dir, write_tree

PROPERTY = 'C20'
ASSUMPTIONS = ['tests which did not start (avoided by their requirements, or not reached) have no entry of their own, as with the counters of the session',
               'xunit has no notion of interrupted tests: their entry has no particular mark']

T = [None]     # the text under test

HEAD = '''import slash, warnings, logbook
from slash.ctx import context
from mc.checks import c20
from mc.checks.c20 import T
class Boom(Exception):
    pass
class Rude(Exception):
    def __str__(self):
        raise ValueError('no')
    __repr__ = __str__
class Named(Exception):
    def __str__(self):
        return T[0]
    __repr__ = __str__
class Obj(object):
    def __repr__(self):
        return T[0]
class RudeObj(object):
    def __repr__(self):
        raise ValueError('no')
def fail_now(e=None):
    raise (e or Boom('late'))
'''

ACTIONS = {
    'pass': 'pass',
    'A': 'assert 1 == 2, "why"',
    'E': 'raise Boom("error")',
    'Rude': 'raise Rude()',
    'ee': 'slash.add_error("one"); slash.add_error("two")',
    'fE': 'slash.add_failure("one"); raise Boom("two")',
    'f': 'slash.add_failure("one")',
    'S': 'slash.skip_test("reason")',
    'eS': 'slash.add_error("one"); slash.skip_test("reason")',
    'ss': 'context.result.add_skip("a"); context.result.add_skip(None)',
    'c': 'slash.add_cleanup(fail_now)',
    'm': 'slash.add_cleanup(fail_now, scope="module")',
    'g': 'slash.add_cleanup(fail_now, scope="session")',
    'gf': 'slash.add_cleanup(assert_never, scope="session")',
    'K': 'raise KeyboardInterrupt()',
    'fK': 'slash.add_failure("one"); raise KeyboardInterrupt()',
    'X': 'raise SystemExit(0)',
    'D': 'context.result.details.set("k", 1); context.result.details.append("l", "x"); slash.add_failure("one")',
}
DECORATED = {'avoid': '@slash.requires(False, "never")\n', 'decskip': '@slash.skipped("why")\n', 'decskip0': '@slash.skipped\n'}
ALL = list(ACTIONS) + list(DECORATED)


def vector_files(vec, per_file):
    files = {}
    for i, a in enumerate(vec):
        name = 'test_%s.py' % 'abc'[i if per_file else 0]
        files[name] = files.get(name, HEAD + 'def assert_never():\n    assert False, "never"\n')
        files[name] += '%sdef test_%d():\n    %s\n' % (DECORATED.get(a, ''), i, ACTIONS.get(a, 'pass'))
    return files


def run(files, config=None, argv=(), hooks=None):
    d = fresh_dir('c20')
    write_tree(d, files)
    xml = os.path.join(d, 'out.xml')
    try:
        out = world.run_session(d, [os.path.join(d, f) for f in sorted(files) if f.startswith('test_')] + ['--with-xunit', '--xunit-filename', xml] + list(argv),
                                hooks=hooks, config=config)
        out.xml = open(xml, 'rb').read() if os.path.exists(xml) else None
    finally:
        gossip.unregister_token('c20')
        shutil.rmtree(d, True)
    return out


BAD = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def same(shown, text):
    """whether `shown` is the text, up to what cannot be written in XML"""
    if not isinstance(text, str):
        return True
    if not BAD.search(text):
        return shown == text
    pos = 0
    for part in (p for p in BAD.split(text) if p):
        pos = shown.find(part, pos)
        if pos < 0:
            return False
        pos += len(part)
    return True


def judge(out, level=None, tb=1, ending=False):
    bad = []
    if out.raised is not None or out.session is None:
        return ['the run did not come about: %r' % (out.raised,)]
    res = out.session.results
    mine = list(res.iter_test_results())
    every = mine + [res.global_result]
    n_err = sum(1 for r in every if r._errors)
    n_fail = sum(1 for r in every if r._failures and not r._errors)
    n_skip = sum(1 for r in every if r._skips and r._started)
    n_ok = sum(1 for r in mine if r._started and r._finished and not (r._errors or r._failures or r._skips or r._interrupted))
    n_not = sum(1 for r in mine if not r._started and not r._errors and not r._failures)
    # console
    text = out.report.getvalue()
    ends = re.findall(r'Session ended\. (\d+) successful, (\d+) skipped, (\d+) failed, (\d+) erroneous\.(?: (\d+) not run\.)?', text)
    want = (str(n_ok), str(n_skip), str(n_fail), str(n_err), str(n_not) if n_not else '')
    if ends != [want]:
        bad.append('the console says %s instead of %s' % (ends, want))
    if level is None or level <= 14:
        headers = re.findall(r'^=* ?== #(\d+): ', text, re.M)
        wanth = [str(i + 1) for i, r in enumerate(mine) if r._errors or r._failures or (r._skips and level is not None and level <= 11)]
        if headers != wanth:
            bad.append('the summary is of tests %s instead of %s' % (headers, wanth))
        summary = text[text.find('Session Summary'):] if 'Session Summary' in text else ''
        for r in mine:
            for e in r._errors + r._failures:
                if tb >= 1 and e.message.splitlines()[:1] and e.message.splitlines()[0] not in summary:
                    bad.append('the summary lacks %r' % (e.message,))
    # errors of ending the session come too late for the report
    if ending:
        return bad
    # xunit
    if out.xml is None:
        return bad + ['no xunit report']
    try:
        root = ET.fromstring(out.xml)
    except ET.ParseError as e:
        return bad + ['the xunit report is not XML: %s' % (e,)]
    got = tuple(root.get(k) for k in ('tests', 'errors', 'failures', 'skipped'))
    want = tuple(map(str, (len(mine), n_err, n_fail, n_skip)))
    if got != want:
        bad.append('xunit totals (tests, errors, failures, skipped) %s instead of %s' % (got, want))
    cases = root.findall('testcase')
    started = [r for r in mine if r._started]
    if len(cases) != len(started) or any(not same(c.get('name'), r.test_metadata.address) for c, r in zip(cases, started)):
        bad.append('entries %s instead of %s' % ([c.get('name') for c in cases], [r.test_metadata.address for r in started]))
        return bad
    if len({c.get('name') for c in cases}) != len({r.test_metadata.address for r in started}):
        bad.append('entries are not told apart: %s' % [c.get('name') for c in cases])
    for el, r in list(zip(cases, started)) + [(root, res.global_result)]:
        # errors come before failures, each under the tag of its kind
        wantel = [('failure' if e._is_failure else 'error', e.message, e.exception_type) for e in list(r._errors) + list(r._failures)]
        gotel = [(x.tag, x.get('message'), x.get('type')) for x in el if x.tag in ('error', 'failure')]
        if len(wantel) != len(gotel) or any(g[0] != w[0] or not same(g[1], w[1]) for g, w in zip(gotel, wantel)):
            bad.append('entry of %s has %s instead of %s' % (el.get('name'), gotel, wantel))
        else:
            for g, w in zip(gotel, wantel):
                if g[2] not in (w[0],) + ((w[2].__name__,) if w[2] is not None else ()):
                    bad.append('%s of %s is said to be a %s, not %s' % (w[:2] + (g[2], w[2])))
        if el is root:
            continue
        skips = [x.get('type') for x in el if x.tag == 'skipped']
        if len(skips) != len(r._skips) or any(not same(s, k or '') for s, k in zip(skips, r._skips)):
            bad.append('entry of %s has skips %s instead of %s' % (el.get('name'), skips, r._skips))
        ndet = sum(len(v) if isinstance(v, list) else 1 for v in r.details.all().values())
        dets = [x for x in el if x.tag == 'detail']
        if len(dets) != ndet:
            bad.append('entry of %s has %d details instead of %d' % (el.get('name'), len(dets), ndet))
        for x, (k, v) in zip(dets, [(k, v) for k, vs in r.details.all().items() for v in (vs if isinstance(vs, list) else [vs])]):
            if not same(x.get('name'), k) or (isinstance(v, str) and not same(x.get('value'), v)):
                bad.append('detail %r=%r is shown as %r' % (k, v, ET.tostring(x)))
            if isinstance(v, (int, float)) and x.get('value') != str(v):
                bad.append('detail %r=%r is shown as %r' % (k, v, ET.tostring(x)))
        extra = [x.tag for x in el if x.tag not in ('error', 'failure', 'skipped', 'detail')]
        if extra:
            bad.append('entry of %s has %s' % (el.get('name'), extra))
    if [x.tag for x in root if x.tag not in ('testcase', 'error', 'failure')]:
        bad.append('the report has %s' % [x.tag for x in root])
    return bad


#: stop at the first, levels and the like
EXTRAS = {'plain': [], 'stop': ['-x'], 'repeat': ['--repeat-each', '2'], 'all': ['--repeat-all', '2']}


def run_vector(vec, per_file, extra, level, tb, st):
    cfg = {}
    argv = list(EXTRAS[extra])
    if level is not None:
        cfg['log.console_level'] = level
    cfg['log.console_traceback_level'] = tb
    out = run(vector_files(vec, per_file), cfg, argv)
    bad = judge(out, level, tb)
    st.state((vec, per_file, extra, level, tb))
    st.execution((vec, per_file, extra, level, tb, re.sub(r'\d+\.\d+|\d\d:\d\d:\d\d|c20\d+|mcslash-\w+/\w*', '', out.report.getvalue())[-300:]),
                 sample=dict(tests=vec, end=out.report.getvalue()[-200:].strip()))
    if bad:
        st.violation('tests %s (%s, console level %s, tracebacks %s): %s' % (vec, extra, level, tb, '; '.join(bad[:2])),
                     dict(vec=vec, per_file=per_file, extra=extra, level=level, tb=tb, problems=bad, xml=(out.xml or b'').decode('utf8', 'replace')[:3000]))


# -- text -------------------------------------------------------------------------------------------------------------------
class StrSub(str):
    pass


TEXTS = ['<a> & "b" \'c\' ]]>', '&amp;', '<!-- x -->', 'line1\nline2\n', '\r\n\ttab', '', ' ', 'a\x00b', '\x01\x08\x1b[31mred\x1b[0m', '\x7f\x85', '\ud800', 'x\udfff\ud800y', '\ufffe\uffff', '\u2028\u2029',
         '\u05e9\u05dc\u05d5\u05dd', '\U0001f600', '\u202e', '{0} {x} {} %s %(a)s %', '{', '}', '\\', 'C:\\n', '$HOME', 'x' * 3000, '<?xml version="1.0"?>', '<![CDATA[', 'a=b,c:d(e)', '\xa0', '\x0b\x0c\x1c', "it's", 'Session ended. 9 successful',
         'bytes\u00ff', '\udcff']
VALUES = [None, 0, 5, 1.5, float('nan'), True, (), [], {}, b'bytes\xff', object(), ['a', None, ['b']], {'a b': 1, '': 2, 5: 3, None: {'x': [1, 2]}}, {'<a': '<b'}, {'\x00': '\x00'}, {1, 2}, ('t', {'k': '\ud800'}), Exception('x'), StrSub('s'), {'xml': 1, 'a:b': 2, 'a-b.c_d': 3, '-x': 4}]

#: body of the test; T[0] is the text
PLACES = {
    'exc': 'raise Boom(T[0])', 'assert': 'assert False, T[0]', 'str': 'raise Named()', 'add_error': 'slash.add_error(T[0])', 'add_failure': 'slash.add_failure(T[0])',
    'skip': 'slash.skip_test(T[0])', 'add_skip': 'context.result.add_skip(T[0])', 'detail': 'slash.context.result.details.set("k", T[0])', 'detail_fail': 'slash.context.result.details.set("k", T[0]); slash.add_failure("x")',
    'key': 'context.result.details.set(T[0], "v"); slash.add_failure("x")', 'append': 'context.result.details.append("k", T[0]); context.result.details.append("k", "x")',
    'nested': 'context.result.details.set("k", {"a": [T[0], {"b": T[0]}]})', 'subkey': 'context.result.details.set("k", {T[0]: 1, "a": {T[0]: [2]}})',
    'detail_obj': 'context.result.details.set("k", Obj()); slash.add_failure("x")', 'detail_rude': 'context.result.details.set("k", RudeObj())',
    'cleanup': 'slash.add_cleanup(fail_now, Boom(T[0]))', 'session_cleanup': 'slash.add_cleanup(fail_now, Boom(T[0]), scope="session")',
    'add_error_obj': 'slash.add_error(Obj())', 'fatal': 'slash.add_error(T[0]).mark_fatal()',
    'interrupt': 'slash.add_failure(T[0]); raise KeyboardInterrupt(T[0])', 'exit': 'slash.add_failure(T[0]); raise SystemExit(T[0])',
    'warn': 'warnings.warn(T[0])', 'warn_log': 'logbook.Logger("x").warning("{}", T[0])', 'local': 'x = T[0]; y = Obj(); z = RudeObj(); raise Boom("x")',
    'end_hook': None, 'after_end': None, 'param': None, 'fixture_param': None, 'repr_param': None, 'reason': None, 'requires': None, 'session_error': None, 'fixture': None, 'labelled': None,
}
NOT_TEXT = ('str', 'detail_obj', 'add_error_obj', 'repr_param', 'labelled', 'reason')         # the place demands a string


def text_files(place):
    src = HEAD
    if place == 'param':
        src += '@slash.parametrize("x", [T[0], "other"])\ndef test_t(x):\n    slash.add_failure("x")\n'
    elif place == 'fixture_param':
        src += '@slash.parametrize("x", [T[0], "other"])\n@slash.fixture\ndef fx(x):\n    return x\ndef test_t(fx):\n    slash.add_failure("x")\n'
    elif place == 'repr_param':
        src += '@slash.parametrize("x", [Obj(), RudeObj(), "o"])\ndef test_t(x):\n    slash.add_failure("x")\n'
    elif place == 'labelled':
        src += '@slash.parametrize("x", [slash.param("lbl", T[0]), "other" // slash.param("l2")])\ndef test_t(x):\n    slash.add_failure("x")\n'
    elif place == 'reason':
        src += '@slash.skipped(T[0])\ndef test_t():\n    pass\n'
    elif place == 'requires':
        src += '@slash.requires(lambda: False, message=T[0])\ndef test_t():\n    pass\n'
    elif place == 'session_error':
        src += 'import gossip\n@gossip.register("slash.session_end", token="c20", provides=["early"])\ndef end():\n    pass\n@gossip.register("slash.before_session_cleanup", token="c20")\ndef end():\n    slash.add_error(T[0])\n    raise Boom(T[0])\ndef test_t():\n    pass\n'
    elif place in ('end_hook', 'after_end'):
        src += 'import gossip\n@gossip.register("slash.%s", token="c20")\ndef end():\n    raise Boom(T[0])\ndef test_t():\n    slash.add_failure("x")\n' % (
            'session_end' if place == 'end_hook' else 'after_session_end')
    elif place == 'fixture':
        src += '@slash.fixture\ndef fx():\n    raise Boom(T[0])\ndef test_t(fx):\n    pass\n'
    else:
        src += 'def test_t():\n    %s\n' % PLACES[place]
    return {'test_a.py': src + 'def test_z():\n    pass\n'}


def run_text(place, n, level, tb, st):
    text = T[0] = (TEXTS + VALUES)[n]
    out = run(text_files(place), {'log.console_level': level, 'log.console_traceback_level': tb})
    bad = judge(out, level, tb, place in ('end_hook', 'after_end'))
    if out.session is not None and out.raised is None:
        errs = [e.message for e in out.session.results.global_result.get_errors()]
        if errs and place not in ('session_cleanup', 'session_error', 'interrupt', 'exit', 'fatal', 'end_hook', 'after_end'):
            bad.append('session errors %s' % errs)
        if place not in ('interrupt', 'exit', 'fatal') and len(list(out.session.results.iter_test_results())) != {'param': 3, 'fixture_param': 3, 'repr_param': 4, 'labelled': 3}.get(place, 2):
            bad.append('%d results' % len(list(out.session.results.iter_test_results())))
    st.state((place, n, level, tb))
    st.execution((place, n, level, tb, len(out.xml or b'')), sample=dict(place=place, text=ascii(text)[:60], level=level))
    if bad:
        st.violation('%s in %s (console level %s, tracebacks %s): %s' % (ascii(text)[:60], place, level, tb, '; '.join(ascii(b)[:400] for b in bad[:2])),
                     dict(place=place, text=ascii(text)[:200], level=level, tb=tb, problems=[ascii(b)[:1000] for b in bad], xml=ascii((out.xml or b''))[:3000]))


LEVELS = [9, 10, 11, 12, 13, 14, 15]     # logbook: TRACE DEBUG INFO NOTICE WARNING ERROR CRITICAL
NV, NC, NT = 32, 16, 32


def bound(tier):
    return 'all vectors of up to %d outcomes out of %d in one or more files, with stopping and repetition; all vectors of up to 2 x 7 console levels x 5 traceback levels; %d texts and values x %d places x console settings' % (
        3, len(ALL), len(TEXTS) + len(VALUES), len(PLACES))


def tasks(tier):
    for k in range(NV):
        yield ['vec', tier, k]
    for k in range(NC):
        yield ['cons', tier, k]
    for k in range(NT):
        yield ['text', tier, k]


def vectors(tier):
    for n in (1, 2):
        for vec in itertools.product(ALL, repeat=n):
            for per_file in (False, True) if n > 1 else (False,):
                for extra in EXTRAS:
                    yield vec, per_file, extra
    few = [a for a in ALL if a not in ('Rude', 'ee', 'gf', 'decskip0', 'X', 'D', 'fE')] if tier == 'quick' else ALL
    for vec in itertools.product(few, repeat=3):
        if tier != 'quick' or len(set(vec)) == 3 or vec[0] == vec[1]:
            for extra in ('plain',) if tier == 'quick' else EXTRAS:
                yield vec, True, extra


def cons(tier):
    for n in (1, 2):
        for vec in itertools.product(ALL, repeat=n):
            for level in LEVELS:
                for tb in range(5):
                    if tier == 'thorough' or n == 1 or (tb in (1, 4) and level in (9, 11, 13, 14) and (LEVELS.index(level) + tb + ALL.index(vec[0]) + ALL.index(vec[1])) % 2):
                        yield vec, level, tb


def texts(tier):
    for place in PLACES:
        for n, t in enumerate(TEXTS + VALUES):
            if place in NOT_TEXT and type(t) is not str:
                continue
            for level in (9, 12, 13, 14, 15) if tier == 'thorough' else (9, 13):
                for tb in range(5) if tier == 'thorough' else (4 if level == 9 else 2,):
                    yield place, n, level, tb


def run_task(task, st):
    fam, tier, k = task
    if fam == 'vec':
        cases, f, m = vectors(tier), lambda c: run_vector(c[0], c[1], c[2], None, 2, st), NV
    elif fam == 'cons':
        cases, f, m = cons(tier), lambda c: run_vector(c[0], True, 'plain', c[1], c[2], st), NC
    else:
        cases, f, m = texts(tier), lambda c: run_text(c[0], c[1], c[2], c[3], st), NT
    for n, c in enumerate(cases):
        if n % m == k:
            f(c)
            if len(st.violations) > 2:
                return
