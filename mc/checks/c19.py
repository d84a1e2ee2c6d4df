"""C19: every program of emissions, ignore rules and ignore contexts, run in real sessions.  The test code itself says what it is about
to emit, where and under which test; a reference list of active rules (implemented here) says what has to be recorded."""
import itertools, os, re, shutil
import gossip
import slash
from slash.ctx import context
from .. import world
from ..world import fresh_dir, write_tree

PROPERTY = 'C19'
ASSUMPTIONS = ['ImportWarning and warnings the code itself silences through the warnings module are out of scope',
               'log records made before the session begins are out of scope (native warnings are not)']

_DIR = [None]  # where the tests are
_LOG = []      # what the test code did, in order
_SEEN = []     # what warning_added announced


def EM(kind, tag, category, frame_back=1, message=None, filename=None, lineno=None):
    """called on the very line which then emits"""
    import sys
    f = sys._getframe(frame_back)
    _LOG.append(('emit', kind, tag if message is None else message, filename or f.f_code.co_filename, lineno or f.f_lineno, context.test_id if context.test_id else None, category))


def DO(op, *args):
    _LOG.append((op,) + args)


class CustomWarning(UserWarning):
    pass


class SubWarning(CustomWarning):
    pass


class Boom(Exception):
    pass


HEAD = '''import slash, warnings, threading, logbook, gossip
from mc.checks import c19
from mc.checks.c19 import EM, DO, CustomWarning, SubWarning, Boom, RULE
log = logbook.Logger('here')
silent = logbook.Logger('silent')

def deep():
    warnings.warn('deep', stacklevel=2)

'''

#: emission kinds: source line (%(t)s the tag), category expected to be recorded
EMIT = {
    'w': ("EM('w', '%(t)s', UserWarning); warnings.warn('%(t)s')"),
    'c': ("EM('c', '%(t)s', CustomWarning); warnings.warn(CustomWarning('%(t)s'))"),
    's': ("EM('s', '%(t)s', SubWarning); warnings.warn('%(t)s', SubWarning)"),
    'd': ("EM('d', '%(t)s', DeprecationWarning); warnings.warn('%(t)s', DeprecationWarning)"),
    'l': ("EM('l', '%(t)s', c19.LogbookWarning); log.warning('%(t)s')"),
    'L': ("EM('L', '{x} %%s %(t)s', c19.LogbookWarning); log.warning('{} %%s {}', '{x}', '%(t)s')"),
    'x': ("EM('x', '%(t)s', UserWarning, filename='/other/place.py', lineno=7); warnings.warn_explicit('%(t)s', UserWarning, '/other/place.py', 7)"),
    'n': ("EM('n', '5', UserWarning); warnings.warn(UserWarning(5))"),
    'z': ("EM('z', '', CustomWarning); warnings.warn(CustomWarning())"),
    'r': ("for i in range(3): EM('r', '%(t)s', UserWarning); warnings.warn('%(t)s')"),
    't': ("EM('t', '%(t)s', UserWarning, filename=c19.FILE, lineno=c19.THREAD); t = threading.Thread(target=c19.in_thread, args=('%(t)s',)); t.start(); t.join()"),
    'q': ("silent.warning('%(t)s')"),
    'k': ("EM('k', 'deep', UserWarning); deep()"),
    'C': ("with warnings.catch_warnings(): warnings.simplefilter('ignore'); warnings.warn('not me')"),
    'b': ("EM('b', '{brace} %%d %(t)s', UserWarning); warnings.warn('{brace} %%d %(t)s')"),
    'D': ("log.debug('no warning'); log.info('no warning'); log.notice('no warning')"),
}


def in_thread(tag):
    import warnings
    warnings.warn(tag)


LogbookWarning = slash.warnings.LogbookWarning
FILE = os.path.abspath(__file__)
THREAD = in_thread.__code__.co_firstlineno + 2


def RULE(r):
    """a rule spec (category name, message, filename, lineno) as keyword arguments of slash.ignore_warnings"""
    cat, msg, fn, line = r
    cats = dict(U=UserWarning, W=Warning, C=CustomWarning, S=SubWarning, D=DeprecationWarning, L=LogbookWarning)
    out = {}
    if cat:
        out['category'] = cats[cat]
    for key, v in (('message', msg), ('filename', fn)):
        if v:
            out[key] = re.compile(v[1:]) if v[0] == '~' else v[1:]
    if line:
        out['lineno'] = line
    return out


def matches(rule, e):
    _, kind, message, filename, lineno, test, category = e
    for key, v in RULE(rule).items():
        if key == 'category' and not issubclass(category, v):
            return False
        if key == 'lineno' and v != lineno:
            return False
        if key in ('message', 'filename'):
            s = message if key == 'message' else filename
            if not (v.match(s) if hasattr(v, 'match') else v == s):
                return False
    return True


def expected():
    """the emissions no rule in force matches"""
    rules = []
    out = []
    for e in _LOG:
        if e[0] == 'emit':
            if not any(matches(r, e) for _, r in rules):
                out.append(e)
        elif e[0] == 'push':
            rules.append((e[1], e[2]))
        elif e[0] == 'pop':
            rules = [x for x in rules if x[0] != e[1]]
        elif e[0] == 'clear':
            rules = []
    return out


def observe(files, config=None, setup=None, hooks=None):
    del _LOG[:], _SEEN[:]
    d = _DIR[0] = fresh_dir('c19')
    write_tree(d, files)
    slash.clear_ignored_warnings()

    def warning_added(warning):
        _SEEN.append(warning)
    try:
        out = world.run_session(d, [os.path.join(d, f) for f in sorted(files) if f.startswith('test_')],
                                hooks=dict(hooks or {}, warning_added=warning_added), config=config)
        left = list(slash.warnings._ignored_warnings)
    finally:
        slash.clear_ignored_warnings()
        gossip.unregister_token('c19')
        if 'plug' in slash.plugins.manager.get_installed_plugins():
            slash.plugins.manager.uninstall('plug')
        shutil.rmtree(d, True)
    return out, left


CAT = {c.__name__: c for c in (UserWarning, CustomWarning, SubWarning, DeprecationWarning, LogbookWarning)}


def judge(out, want_success=True):
    bad = []
    if out.session is None or out.raised is not None:
        return ['the run did not come about: %r' % (out.raised,)]
    if want_success and not out.session.results.is_success():
        return ['the run failed: %s' % [e.message for r in out.session.results.iter_all_results() for e in r.get_errors()]]
    recorded = list(out.session.warnings)
    mine = [w for w in recorded if 'rewrite.py' not in w.filename]
    if list(map(id, _SEEN)) != list(map(id, recorded)):
        bad.append('recorded %s, announced %s' % ([w.message for w in recorded], [w.message for w in _SEEN]))
    got = [(w.message, w.filename, w.lineno, w.details.get('test_id'), w.details.get('type')) for w in mine]
    want = [(e[2], e[3], e[4], e[5], e[6].__name__) for e in expected()]
    # what happened before the session is handed over as it begins
    if [g[:3] + g[4:] for g in got] != [w[:3] + w[4:] for w in want]:
        bad.append('recorded %s instead of %s' % ([g[0] for g in got], [w[0] for w in want]) if [g[0] for g in got] != [w[0] for w in want] else 'recorded %s instead of %s' % (got, want))
    elif got != want:
        bad.append('attributed %s instead of %s' % ([(g[0], g[3]) for g in got], [(w[0], w[3]) for w in want]))
    if len(out.session.warnings) != len(recorded) or bool(out.session.warnings) != bool(recorded):
        bad.append('the number of warnings is %d' % len(out.session.warnings))
    for w in mine:
        if w.message not in str(w) or w.to_dict().get('lineno') != w.lineno:
            bad.append('%r is shown as %r' % (w.message, str(w)))
    return bad


# -- programs of one test body ----------------------------------------------------------------------------------------------
CONTEXT_RULES = [('U', None, None, None), (None, '~e', None, None), ('C', None, None, None), (None, None, None, None), ('D', '=nothing', None, None)]
LETTERS = 'wcl'


def programs(length, nrules):
    """all well nested token sequences: emissions, ( rule ... ) left normally or ] left by an exception, ! left by a skip-like return,
    g a rule of its own, 0 clearing"""
    toks = [('e', k) for k in LETTERS] + [('(', r) for r in range(nrules)] + [(')',), (']',), ('r',)] + [('g', r) for r in range(nrules)] + [('0',)]

    def rec(prefix, open_):
        yield prefix, open_
        if len(prefix) == length:
            return
        for t in toks:
            if t[0] == '(':
                if open_ < 2:
                    yield from rec(prefix + [t], open_ + 1)
            elif t[0] in ')]r':
                if open_:
                    yield from rec(prefix + [t], open_ - 1)
            else:
                yield from rec(prefix + [t], open_)
    for p, o in rec([], 0):
        if o == 0 and any(t[0] == 'e' for t in p):
            yield p


def body(program, name='test_p'):
    """source of the function; contexts left by `return` are functions of their own"""
    lines = ['def %s():' % name]
    ind = ['    ']
    count = [0]

    def emit(s):
        lines.append(ind[-1] + s)
    # how each context is left is known only at its end
    ends = {}
    stack = []
    for i, t in enumerate(program):
        if t[0] == '(':
            stack.append(i)
        elif t[0] in ')]r':
            ends[stack.pop()] = t[0]
    stack = []
    for i, t in enumerate(program):
        if t[0] == 'e':
            emit(EMIT[t[1]] % dict(t='e%d' % i))
        elif t[0] == '(':
            rule = CONTEXT_RULES[t[1]]
            if ends[i] == 'r':
                emit('def inner%d():' % i)
                ind.append(ind[-1] + '    ')
            else:
                emit('try:')
                ind.append(ind[-1] + '    ')
            emit('with slash.ignored_warnings(**RULE(%r)):' % (rule,))
            ind.append(ind[-1] + '    ')
            emit('DO("push", %d, %r)' % (i, rule))
            stack.append(i)
        elif t[0] in ')]r':
            o = stack.pop()
            emit({')': 'pass', ']': 'raise Boom()', 'r': 'return'}[t[0]])
            ind.pop()
            ind.pop()
            if t[0] == 'r':
                emit('inner%d()' % o)
            else:
                emit('except Boom: pass')
            emit('DO("pop", %d)' % o)
        elif t[0] == 'g':
            emit('slash.ignore_warnings(**RULE(%r)); DO("push", %d, %r)' % (CONTEXT_RULES[t[1]], i, CONTEXT_RULES[t[1]]))
        elif t[0] == '0':
            emit('slash.clear_ignored_warnings(); DO("clear")')
    return '\n'.join(lines) + '\n'


BATCH = 40


def run_programs(batch, st):
    """several programs as consecutive tests of one session; every test begins with no rules"""
    src = HEAD
    for n, p in enumerate(batch):
        src += body(p, 'test_%03d' % n).replace('():\n', '():\n    slash.clear_ignored_warnings(); DO("clear")\n', 1)
    out, left = observe({'test_a.py': src})
    # leaving a context by an exception counts as an error of the test wherever it ends up
    bad = judge(out, want_success=not any((']',) in p for p in batch))
    if bad and len(batch) > 1:
        for p in batch:
            run_programs([p], st)
            if st.violations:
                return
    for p in batch:
        st.state(p)
    st.execution((repr(batch), [e[2] for e in expected()]), sample=dict(program=repr(batch[0])))
    if bad:
        st.violation('program %s: %s' % (batch[0] if len(batch) == 1 else 'of several', '; '.join(bad[:2])), dict(source=src if len(batch) == 1 else None, problems=bad))


# -- rules ------------------------------------------------------------------------------------------------------------------
RULE_LINES = ['w', 'c', 's', 'd', 'l', 'L', 'x', 'n', 'z', 'r', 't', 'k', 'b']


def rule_file():
    src = HEAD + 'def test_r():\n'
    first = src.count('\n') + 1
    for i, k in enumerate(RULE_LINES):
        src += '    ' + EMIT[k] % dict(t='msg %s' % k) + '\n'
    return src, first


def rules(tier):
    _, first = rule_file()
    msgs = [None, '=msg c', '=msg', '~msg c', '~msg', '~.*c', '~c', '=5', '~5', '=deep', '~^$', '~$', '~msg [wcl]$']
    files = [None, '=FILE', '=/other/place.py', '~.*/test_a', '~test_a', '~/other', '=test_a.py']
    lines = [None, first, first + 1, first + 4, 7, 9999]
    cats = [None, 'U', 'W', 'C', 'S', 'D', 'L']
    for r in itertools.product(cats, msgs, files, lines):
        if tier == 'thorough' or sum(x is not None for x in r) <= 2 or (r[1] in (None, '~msg', '=msg c') and r[2] in (None, '=FILE', '~/other')):
            yield r


def run_rule(r, st, second=None):
    src, _ = rule_file()

    def configure():
        # the directory is known by now
        for n, rr in enumerate(x for x in (r, second) if x):
            rr = real(rr)
            slash.ignore_warnings(**RULE(rr))
            DO('push', n, rr)

    def real(rr):
        return rr[:2] + (rr[2],) + rr[3:] if rr[2] != '=FILE' else rr[:2] + ('=' + os.path.join(_DIR[0], 'test_a.py'),) + rr[3:]
    hooks = dict(session_start=configure)
    out, left = observe({'test_a.py': src}, hooks=hooks)
    bad = judge(out)
    exp = expected()
    st.state((r, second))
    st.execution((r, second, [e[1] for e in exp]), sample=dict(rule=r, recorded=[e[2] for e in exp]))
    if len(exp) < len([e for e in _LOG if e[0] == 'emit']):
        st.count('ignoring')
    if bad:
        st.violation('rule %s %s: %s' % (r, second or '', '; '.join(bad[:2])), dict(rule=r, second=second, problems=bad))



# -- places -----------------------------------------------------------------------------------------------------------------
PLACES = ['slashrc', 'configure', 'plugin', 'import', 'session_start', 'tests_loaded', 'test_start', 'fix_test', 'unfix_test', 'fix_module', 'unfix_module', 'fix_session',
          'unfix_session', 'body', 'cleanup', 'modcleanup', 'sesscleanup', 'second', 'test_end', 'before_session_cleanup', 'session_end', 'body_fail']
CONFIGS = {'plain': {}, 'logs': {'log.root': 'LOGS'}, 'unified': {'log.root': 'LOGS', 'log.unified_session_log': True},
           'onefile': {'log.root': 'LOGS', 'log.subpath': 'one.log', 'log.session_subpath': 'one.log'},
           'core': {'log.core_log_level': 14}, 'verbose': {'log.console_level': 9, 'log.root': 'LOGS', 'log.cleanup.enabled': True},
           'errors': {'run.capture.error_logs_as_errors': True}, 'silent': {'log.silence_loggers': ['silent']},
           'compress': {'log.root': 'LOGS', 'log.compression.enabled': True, 'log.compression.use_rotating_raw_file': True},
           'highlights': {'log.root': 'LOGS', 'log.highlights_subpath': 'hl.log'}}
BEFORE = ('slashrc', 'configure', 'plugin')     # before the session


def place_files(emits):
    """emits: place -> [kind]"""
    def at(place, ind='    '):
        return ''.join(ind + EMIT[k] % dict(t='%s %s' % (place, k)) + '\n' for k in emits.get(place, ())) or ind + 'pass\n'
    def hook(name):
        return '@gossip.register("slash.%s", token="c19")\ndef %s():\n    if 1:\n%s\n' % (name, name, at(name, '        '))
    rc = HEAD + at('slashrc', '') + hook('configure') + '''
class Plug(slash.plugins.interface.PluginInterface):
    def get_name(self):
        return 'plug'
    def activate(self):
%s
slash.plugins.manager.install(Plug(), activate_later=True)
''' % at('plugin', '        ')
    for name in ('session_start', 'test_start', 'test_end', 'before_session_cleanup', 'session_end'):
        rc += hook(name)
    rc += '@gossip.register("slash.tests_loaded", token="c19")\ndef tests_loaded(tests):\n' + at('tests_loaded')
    a = HEAD + at('import', '')
    for scope in ('test', 'module', 'session'):
        a += '@slash.generator_fixture(scope=%r)\ndef fx_%s():\n%s    yield 1\n%s\n' % (scope, scope, at('fix_' + scope), at('unfix_' + scope))
    for pl in ('cleanup', 'modcleanup', 'sesscleanup'):
        a += 'def do_%s():\n%s\n' % (pl, at(pl))
    a += 'def test_a(fx_test, fx_module, fx_session):\n    slash.add_cleanup(do_cleanup)\n    slash.add_cleanup(do_modcleanup, scope="module")\n    slash.add_cleanup(do_sesscleanup, scope="session")\n' + at('body')
    a += 'def test_b():\n' + at('second')
    a += 'def test_c():\n    try:\n        raise Boom()\n    except Boom as e:\n        slash.add_failure("x")\n' + at('body_fail')
    b = HEAD + 'def test_z():\n    pass\n'
    return {'.slashrc': rc, 'test_a.py': a, 'test_b.py': b}


def run_places(emits, cfg, st):
    conf = {}
    for k, v in CONFIGS[cfg].items():
        conf[k] = os.path.join(world.fresh_dir('logs')) if v == 'LOGS' else v
    out, left = observe(place_files(emits), config=conf)
    bad = judge(out, want_success=False)
    if out.session is not None:
        errs = [e.message for r in out.session.results.iter_all_results() for e in list(r.get_errors())]
        if errs:
            bad.append('errors: %s' % errs)
    # where each of them happened, independently of what slash believes
    st.state((sorted(emits), cfg))
    st.execution((sorted(emits.items()), cfg, [(w.message, w.details.get('test_id') is not None) for w in _SEEN]), sample=dict(places=emits, config=cfg))
    if bad:
        st.violation('emissions %s with %s logging: %s' % (emits, cfg, '; '.join(bad[:2])), dict(emits=emits, config=cfg, problems=bad))
    for k, v in conf.items():
        if k == 'log.root':
            shutil.rmtree(v, True)


def place_cases(tier):
    kinds = ['w', 'c', 'l', 'L', 'x', 'n', 'z', 'r', 't', 'k', 'b', 'D', 'C', 'd']
    for cfg in CONFIGS:
        for p in PLACES:
            for k in kinds if cfg in ('plain', 'logs') or tier == 'thorough' else 'wlt':
                if p in BEFORE and k in 'lL':
                    continue
                yield {p: [k]}, cfg
    pairs = list(itertools.combinations(PLACES, 2)) + [(p, p) for p in PLACES]
    for cfg in ('plain', 'logs', 'unified') if tier == 'thorough' else ('logs',):
        for p, q in pairs:
            for k, l in itertools.product('wl', repeat=2):
                if (p in BEFORE and k == 'l') or (q in BEFORE and l == 'l'):
                    continue
                yield ({p: [k], q: [l]} if p != q else {p: [k, l]}), cfg
    for cfg in CONFIGS:
        yield {p: ['w'] for p in PLACES}, cfg
        yield {p: ['r', 'w'] + ([] if p in BEFORE else ['l', 'l']) for p in PLACES}, cfg
    for p in PLACES:
        if p not in BEFORE:
            yield {p: ['q', 'w', 'q', 'l']}, 'silent'


# -- before the session -------------------------------------------------------------------------------------------------------
def prelude_cases():
    """a rule put up, and possibly taken back, around a warning before the session begins"""
    for where in ('slashrc', 'configure'):
        for rule in range(len(CONTEXT_RULES)):
            for k in 'wcs':
                for form in ('context', 'raise', 'global', 'after', 'cleared', 'past'):
                    yield where, rule, k, form


def run_prelude(case, st):
    where, n, k, form = case
    rule = CONTEXT_RULES[n]
    e = EMIT[k] % dict(t='early')
    enter = 'slash.ignore_warnings(**RULE(%r)); DO("push", 1, %r)' % (rule, rule)
    prog = {
        'context': ['with slash.ignored_warnings(**RULE(%r)):' % (rule,), '    DO("push", 1, %r)' % (rule,), '    ' + e, 'DO("pop", 1)', e],
        'raise': ['try:', '    with slash.ignored_warnings(**RULE(%r)):' % (rule,), '        DO("push", 1, %r)' % (rule,), '        ' + e, '        raise Boom()', 'except Boom: pass', 'DO("pop", 1)', e],
        'global': [enter, e],
        # a rule for the session also covers what was emitted before it: this is what rules in a .slashrc are for
        'after': ['DO("push", 1, %r)' % (rule,), e, 'slash.ignore_warnings(**RULE(%r))' % (rule,)],
        'cleared': [e, 'slash.clear_ignored_warnings()', e],
        'past': ['with slash.ignored_warnings(**RULE(%r)): pass' % (rule,), e],
    }[form]
    if where == 'slashrc':
        rc = HEAD + '\n'.join(prog) + '\n'
    else:
        rc = HEAD + '@gossip.register("slash.configure", token="c19")\ndef configure():\n' + ''.join('    %s\n' % x for x in prog)
    out, left = observe({'.slashrc': rc, 'test_a.py': HEAD + 'def test_a():\n    %s\n' % (EMIT['w'] % dict(t='in the test'))})
    bad = judge(out)
    st.state(case)
    st.execution((case, [w.message for w in _SEEN]), sample=dict(case=case))
    if bad:
        st.violation('before the session, %s: %s' % (case, '; '.join(bad[:2])), dict(case=case, source=rc, problems=bad))


NP, NR, NL = 32, 16, 16


def bound(tier):
    return 'programs of up to %d operations over 3 kinds of emission, 2 levels of ignore contexts (left normally, by exception, by return), rules and clearing; %s; 22 places x 14 kinds of emission x 10 logging configurations' % (
        5 if tier == 'thorough' else 4, 'all 3822 rules over 4 criteria and pairs' if tier == 'thorough' else 'all rules with at most 2 criteria and others')


def tasks(tier):
    for k in range(NP):
        yield ['prog', tier, k]
    for k in range(NR):
        yield ['rule', tier, k]
    for k in range(NL):
        yield ['place', tier, k]
    for k in range(4):
        yield ['prelude', tier, k]


def run_task(task, st):
    fam, tier, k = task
    if fam == 'prog':
        deep = tier == 'thorough'
        mine = [p for n, p in enumerate(itertools.chain(programs(4, 3), programs(5, 2) if deep else (), programs(3, 5))) if n % NP == k]
        for i in range(0, len(mine), BATCH):
            run_programs(mine[i:i + BATCH], st)
            if st.violations:
                return
    elif fam == 'rule':
        rs = list(rules(tier))
        for n, r in enumerate(rs):
            if n % NR == k:
                run_rule(r, st)
                if st.violations:
                    return
        few = [r for r in rs if sum(x is not None for x in r) == 1]
        for n, (a, b) in enumerate(itertools.combinations(few, 2)):
            if n % NR == k and (tier == 'thorough' or n // NR % 3 == 0):
                run_rule(a, st, b)
    elif fam == 'place':
        for n, (emits, cfg) in enumerate(place_cases(tier)):
            if n % NL == k:
                run_places(emits, cfg, st)
                if len(st.violations) > 2:
                    return
    else:
        for n, c in enumerate(prelude_cases()):
            if n % 4 == k:
                run_prelude(c, st)
                if len(st.violations) > 2:
                    return
