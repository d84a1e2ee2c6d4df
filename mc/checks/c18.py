"""C18: every record carries its own identity; after each real session (and at every hook during it) all files under the log directory are
read back and compared with where each record belongs, what may have been deleted, and what the links name."""
import brotli, contextlib, gzip, io, itertools, os, re, shutil, threading
import gossip, logbook
import slash
from slash.ctx import context
from .. import world
from ..world import fresh_dir, write_tree

PROPERTY = 'C18'
ASSUMPTIONS = ['records emitted while no session is active are only looked for if made by customization files or the configure hook',
               'what raw files next to compressed ones contain of a unified session log, and what highlights files contain of records before the session, is unspecified',
               'whether records of a file closing or after the session go anywhere is unspecified']

W = [None]      # the world of this run


class World(object):
    def __init__(self, opts):
        self.o = opts
        self.emitted = []       # (id, channel, level, highlight, bypass, test id, where)
        self.problems = []
        self.paths = {}         # test id -> the path its log has to have
        self.order = []         # ids of tests which have a log, in order
        self.names = {}         # id -> name
        self.hl = {}
        self.session_path = None
        self.closed = []
        self.bad = set()        # ids of tests with errors or failures
        self.errors = []


LOGGERS = {n: logbook.Logger(n) for n in ('user', 'quiet', 'slash.runner')}
RECORDS = [('user', 'trace', {}), ('user', 'info', {}), ('user', 'warning', {}), ('user', 'error', {'capture': False}), ('user', 'info', {'highlight': True}), ('quiet', 'info', {}),
           ('quiet', 'warning', {}), ('quiet', 'notice', {'highlight': True}), ('slash.runner', 'debug', {}), ('slash.runner', 'error', {'capture': False}), ('slash.runner', 'debug', {'filter_bypass': True})]
LEVELS = dict(trace=logbook.TRACE, debug=logbook.DEBUG, info=logbook.INFO, notice=logbook.NOTICE, warning=logbook.WARNING, error=logbook.ERROR)


def L(where, name=None):
    """emit one record of every kind.  name: of the test the place belongs to, None for the session, '?' for the one in whose context it is"""
    w = W[0]
    if w is None:
        return
    tid = context.test_id
    if name != '?' and (w.names.get(tid) if tid else None) != name:
        w.problems.append('%s runs under test %s instead of %s' % (where, w.names.get(tid), name))
    for ch, lv, extra in RECORDS:
        emit(ch, lv, extra, where)


def emit(ch, lv, extra, where):
    w = W[0]
    i = len(w.emitted)
    w.emitted.append((i, ch, lv, bool(extra.get('highlight')), bool(extra.get('filter_bypass')), context.test_id, where))
    getattr(LOGGERS[ch], lv)('<<%d>>' % i, extra=dict(extra))


def thread(name):
    t = threading.Thread(target=lambda: emit('user', 'info', {}, 'thread'))
    t.start()
    t.join()


def logged_error():
    """an error record, which is an error only if configured so"""
    w = W[0]
    emit('user', 'error', {}, 'error')
    if w.o['as_errors']:
        w.bad.add(context.test_id)


def bad():
    W[0].bad.add(context.test_id)


TEST = '''import slash
from mc.checks import c18
c18.L('import')
@slash.fixture
def f_%(n)s(this):
    c18.L('setup', '%(n)s')
    @this.add_cleanup
    def c():
        c18.L('teardown', '%(n)s')
        %(teardown)s
    return 1
%(deco)s
def test_%(n)s(f_%(n)s, mod%(more)s):
    c18.L('body', '%(n)s')
    c18.thread('%(n)s')
    slash.add_cleanup(c18.L, args=('cleanup', '%(n)s'))
    slash.add_cleanup(c18.L, args=('session cleanup', '?'), scope='session')
    %(body)s
'''
MODULE = '''
@slash.fixture(scope='module')
def mod(this):
    c18.L('module setup', '?')
    this.add_cleanup(lambda: c18.L('module teardown', '?'))
'''
OUTCOMES = {
    'P': {}, 'A': dict(body='c18.bad(); assert False'), 'E': dict(body='c18.bad(); raise ValueError("v")'), 'S': dict(body='slash.skip_test("s")'), 'R': dict(deco='@slash.requires(lambda: False)'),
    'e': dict(body='c18.bad(); slash.add_error("added")'), 'c': dict(body='slash.add_cleanup(lambda: (c18.bad(), 1 / 0))'), 't': dict(teardown='c18.bad(); raise ValueError("t")'),
    'L': dict(body='c18.logged_error()'), 'K': dict(body='raise KeyboardInterrupt()'), 'X': dict(body='c18.bad(); slash.add_error("x"); raise KeyboardInterrupt()'),
    'V': dict(deco='@slash.parametrize("x", [1, 2])', more=', x', body='if x == 2: c18.bad(); assert x == 1'),
    's': dict(body='slash.add_cleanup(lambda: slash.skip_test("late"))'), 'D': dict(deco='@slash.skipped("why")'),
}
ORDER = 'PASRetcELKXVsD'

OPTIONS = {
    'unified': (False, True), 'cleanup': ('off', 'keep', 'all'), 'compression': ('none', 'gzip', 'gzip+raw', 'brotli', 'brotli+raw'), 'links': ('none', 'relative', 'absolute', 'blocked'),
    'subpath': ('default', 'index', 'session', 'none', 'nested'), 'highlights': ('none', 'one', 'each'), 'silence': (False, True), 'core': ('WARNING', 'TRACE', 'CRITICAL'), 'as_errors': (False, True),
    'console': ('WARNING', 'TRACE'), 'root': ('plain', 'slash', 'home', 'none', 'deep'), 'stop': (False, True),
}
BASE = {k: v[0] for k, v in OPTIONS.items()}
SUBPATHS = {'default': '{context.session.id}/{context.test_id}/debug.log', 'index': '{context.test.__slash__.test_index0:03}-{context.test_methodname}.log', 'session': '{context.session.id}/session.log', 'none': None,
            'nested': 'a/{context.session.id}/b/{context.test_methodname}/{context.test_id}/c.log'}
HL = {'none': None, 'one': 'highlights.log', 'each': '{context.session.id}/{context.test_id}/hl.log'}


def sensible(o):
    # (a session log and a test's log in one compressed file; the raw file of a test which has none)
    return True


def expand(template):
    s = context.session.id
    t = context.test
    return template.format(context=_Ctx(), ) if template else None


class _Ctx(object):
    @property
    def session(self):
        return context.session
    test_id = property(lambda self: str(context.test_id).replace('/', '_'))
    test = property(lambda self: context.test)
    test_methodname = property(lambda self: str(context.test_methodname).replace('/', '_'))


def run(vector, o, st):
    d = fresh_dir('c18')
    w = W[0] = World(o)
    problems = w.problems
    root = {'plain': d + '/logs', 'slash': d + '/logs/', 'home': '~/logs', 'none': None, 'deep': d + '/x/y/logs'}[o['root']]
    real = root and os.path.expanduser(root.replace('~', d + '/home'))
    ext = {'n': '', 'g': '.gz', 'b': '.br'}[o['compression'][0]]
    links = {'none': None, 'relative': 'links/', 'absolute': d + '/links/', 'blocked': d + '/blocked/'}[o['links']]
    where_links = links and real and os.path.join(real, links)
    files, names = {}, []
    for n, c in enumerate(vector):
        spec = OUTCOMES[c]
        src = TEST % dict(n='abc'[n], deco=spec.get('deco', ''), body=spec.get('body', 'pass'), teardown=spec.get('teardown', 'pass'), more=spec.get('more', ''))
        f = 'f0.py' if n < 2 else 'f1.py'
        files[f] = files.get(f, '') + src + (MODULE if f not in files else '')
    files['.slashrc'] = 'import slash\nfrom mc.checks import c18\nc18.L("slashrc")\n'
    write_tree(d, files)
    os.makedirs(d + '/home')
    olds = {}
    if where_links and o['links'] != 'blocked':
        os.makedirs(where_links)
        for l in ('session', 'dir', 'test', 'failed'):
            olds[l] = d + '/old-' + l
            os.symlink(olds[l], os.path.join(where_links, l))
    elif o['links'] == 'blocked':
        for l in ('session', 'dir', 'test', 'failed'):
            os.makedirs(d + '/blocked/%s/in the way' % l)
    cfg = {'log.root': root, 'log.unified_session_log': o['unified'], 'log.cleanup.enabled': o['cleanup'] != 'off', 'log.cleanup.keep_failed': o['cleanup'] != 'all',
           'log.compression.enabled': o['compression'] != 'none', 'log.compression.algorithm': 'brotli' if 'brotli' in o['compression'] else 'gzip',
           'log.compression.use_rotating_raw_file': 'raw' in o['compression'], 'log.subpath': SUBPATHS[o['subpath']], 'log.highlights_subpath': HL[o['highlights']],
           'log.silence_loggers': ['quiet'] if o['silence'] else [], 'log.core_log_level': getattr(logbook, o['core']), 'run.capture.error_logs_as_errors': o['as_errors'],
           'log.console_level': getattr(logbook, o['console']), 'run.stop_on_error': o['stop'], 'log.format': '{record.channel}:{record.level_name}:{record.message}', 'log.console_format': 'CONSOLE:{record.message}'}
    for l in ('session', 'dir', 'test', 'failed'):
        cfg['log.last_%s_symlink' % {'dir': 'session_dir'}.get(l, l)] = links and links + l
    keep = {}
    failing = [None]

    def link(l):
        p = os.path.join(where_links, l)
        return os.readlink(p) if os.path.islink(p) else None

    def exists(path, what):
        if path is not None and not os.path.isfile(path):
            problems.append('%s is reported but does not exist' % what)

    def look(hook):
        """what holds at any time during the session"""
        s = context.session
        if real is None:
            if s.logging.session_log_path is not None or context.result.get_log_paths():
                problems.append('log paths are reported without a log directory')
            return
        if w.session_path is None:
            w.session_path = os.path.join(real, '%s/session.log%s' % (s.id, ext))
        if s.logging.session_log_path != w.session_path or s.results.global_result.get_log_path() != w.session_path:
            problems.append('session log is %s instead of %s' % (s.logging.session_log_path, w.session_path))
        exists(s.logging.session_log_path, 'the session log')
        for p in s.logging.get_active_log_paths() + context.result.get_log_paths():
            exists(p, 'at %s a log path' % hook)
        if w.session_path not in s.logging.get_active_log_paths():
            problems.append('the session log is not active at %s' % hook)
        tid = context.test_id
        if tid is not None:
            if tid not in w.paths:
                sub = expand(SUBPATHS[o['subpath']])
                w.paths[tid] = sub and os.path.join(real, sub) + ext
                w.order.append(tid)
                w.hl[tid] = HL[o['highlights']] and os.path.join(real, expand(HL[o['highlights']]))
            if not context.result.is_global_result() and context.result.get_log_path() != w.paths[tid]:
                problems.append('at %s the log of the test is %s instead of %s' % (hook, context.result.get_log_path(), w.paths[tid]))
            if w.paths[tid] is not None and w.paths[tid] not in s.logging.get_active_log_paths():
                problems.append('the log of the test is not active at %s' % hook)
        elif None not in w.hl:
            w.hl[None] = HL[o['highlights']] and os.path.join(real, expand(HL[o['highlights']]))
        if where_links and o['links'] != 'blocked':
            look_links(hook)

    def raw(p):
        return {p, p[:-3]} if 'raw' in o['compression'] else {p}

    def look_links(hook):
        if link('session') not in raw(w.session_path):
            problems.append('at %s the last session is %s' % (hook, link('session')))
        if link('dir') != os.path.dirname(w.session_path):
            problems.append('at %s the last session directory is %s' % (hook, link('dir')))
        with_log = [t for t in w.order if w.paths[t] is not None and w.paths[t] != w.session_path]
        want = raw(w.paths[with_log[-1]]) if with_log else {olds['test']}
        if link('test') not in want:
            problems.append('at %s the last test is %s instead of %s' % (hook, link('test'), sorted(want)))
        done = [t for t in w.order if t in w.bad and t != context.test_id and w.paths[t] is not None]
        want = {w.paths[done[-1]]} if done else {olds['failed']}
        if link('failed') not in want:
            problems.append('at %s the last failed test is %s instead of %s' % (hook, link('failed'), sorted(want)))

    hooks = {}

    def hook(name, place):
        def cb():
            if context.test_id is not None and context.test is not None:
                w.names[context.test_id] = re.search(r'test_(\w)', context.test.__slash__.address).group(1)
            look(name)
            if failing[0] == name:
                W[0].bad.add(context.test_id)
            L(name, place)
        hooks[name] = cb
    for h in ('before_session_start', 'session_start', 'after_session_start', 'session_end', 'after_session_end'):
        hook(h, None)
    for h in ('test_start', 'test_success', 'test_error', 'test_failure', 'test_end', 'before_session_cleanup', 'before_test_cleanups', 'test_interrupt', 'session_interrupt'):
        hook(h, '?')

    def test_skip(reason):
        hooks_body('test_skip')

    def test_avoided(reason):
        hooks_body('test_avoided')

    def hooks_body(name):
        w.names[context.test_id] = re.search(r'test_(\w)', context.test.__slash__.address).group(1)
        look(name)
        L(name, '?')
    hooks['test_skip'], hooks['test_avoided'] = test_skip, test_avoided
    hooks['configure'] = lambda: L('configure')

    def log_file_closed(path, result):
        w.closed.append((path, None if result.is_global_result() else result.test_metadata.id))
        if not os.path.isfile(path):
            problems.append('%s does not exist as it is said to be closed' % path)
        if path in context.session.logging.get_active_log_paths():
            problems.append('a closed log is active')
    hooks['log_file_closed'] = log_file_closed
    home = os.environ.get('HOME')
    os.environ['HOME'] = d + '/home'
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            out = world.run_session(d, [os.path.join(d, f) for f in sorted(files) if f.endswith('.py')], config=cfg, hooks=hooks)
    finally:
        os.environ['HOME'] = home
        W[0] = None
    s = out.session
    if out.raised is not None and not (isinstance(out.raised, KeyboardInterrupt) and set(vector) & set('KX')):
        problems.append('raised %r' % (out.raised,))
    res = {}
    if s is not None:
        for r in s.results.iter_test_results():
            res[r.test_metadata.id] = r
            if bool(r.get_errors() or r.get_failures()) != (r.test_metadata.id in w.bad):
                problems.append('%s has %s' % (r.test_metadata.address, [e.message for e in r.get_errors()]))
    # -- files
    found = {}
    if real is not None:
        for dp, dn, fn in os.walk(real):
            for f in fn:
                p = os.path.join(dp, f)
                if not os.path.islink(p):
                    data = open(p, 'rb').read()
                    if p.endswith('.gz'):
                        data = gzip.decompress(data)
                    elif p.endswith('.br'):
                        data = brotli.decompress(data)
                    found[p] = data.decode()
        check_files(w, o, vector, res, found, real, problems, raw)
        if where_links and o['links'] != 'blocked':
            with contextlib.suppress(AttributeError):
                look_links('the end')
    elif os.listdir(d + '/home') or [x for x in os.listdir(d) if x not in list(files) + ['home', 'links', 'blocked', '__pycache__']]:
        problems.append('files are written without a log directory: %s' % os.listdir(d))
    # -- console
    text = out.report.getvalue()
    seen = {}
    for i in re.findall('CONSOLE:<<([0-9]+)>>', text):
        seen[int(i)] = seen.get(int(i), 0) + 1
    for i, ch, lv, hl, by, tid, where in w.emitted:
        if where in ('slashrc', 'configure') or (lv == 'error' and where == 'error' and o['as_errors']):
            continue
        want = 1 if shown(o, ch, lv, by) and LEVELS[lv] >= cfg['log.console_level'] else 0
        if seen.get(i, 0) != want:
            problems.append('a %s record of %s at %s is shown %d times on the console instead of %d' % (lv, ch, where, seen.get(i, 0), want))
    st.state((vector, sorted(o.items())))
    dev = {k: v for k, v in o.items() if v != BASE[k]}
    st.execution((vector, sorted(dev.items()), len(found)), sample=dict(outcomes=vector, options=dev))
    st.count('records', len(w.emitted))
    st.count('files read back', len(found))
    shutil.rmtree(d, True)
    if problems:
        short = [re.sub(re.escape(d) + '|[0-9a-f]{8}-[0-9a-f-]{27}', '', p) for p in problems]
        st.violation('tests %s with %s: %s' % (vector, dev, '; '.join(short[:3])), dict(vector=vector, options=o, problems=short[:20]))


def shown(o, ch, lv, bypass):
    if ch == 'quiet' and o['silence']:
        return False
    if ch == 'slash.runner':
        return bypass or LEVELS[lv] >= getattr(logbook, o['core'])
    return True


def check_files(w, o, vector, res, found, real, problems, raw):
    good = {t: t not in w.bad and not res[t].is_interrupted() for t in w.order if t in res}
    interrupted = bool(set(vector) & set('KX') and any(r.is_interrupted() for r in res.values()))
    session_good = not w.bad and not interrupted

    def kept(tid):
        if o['cleanup'] == 'off':
            return True
        if o['cleanup'] == 'all':
            return False
        return not (session_good if tid is None else good[tid])
    where = {}       # file -> whether kept
    for p in raw(w.session_path):
        where[p] = kept(None)
    for t in w.order:
        p = w.paths[t]
        if p is not None and p != w.session_path:
            for q in raw(p):
                where[q] = kept(t)
    for t, p in w.hl.items():
        if p is not None:
            where.setdefault(p, kept(None if o['highlights'] == 'one' else t))
    # (highlights files of what is before the first hook or after the last)
    missing = [p for p, k in where.items() if k and p not in found]
    extra = [p for p in found if not where.get(p)]
    if missing:
        problems.append('%s is missing' % missing)
    if extra:
        problems.append('%s remains although to be removed' % extra if extra[0] in where else '%s should not exist' % extra)
    if o['subpath'] != 'session' or True:
        want = sorted((p, t if q != w.session_path else None) for t, q in list(w.paths.items()) + [(None, w.session_path)] if q is not None for p in raw(q) if not (t is not None and q == w.session_path))
        want += [(p, None if o['highlights'] == 'one' else t) for t, p in w.hl.items() if p is not None]
        if sorted(set(want), key=repr) != sorted(w.closed, key=repr):
            problems.append('closed: %s instead of %s' % (sorted(w.closed, key=repr), sorted(set(want), key=repr)))
    count = {}
    for p, data in found.items():
        for i in re.findall('<<([0-9]+)>>', data):
            count[int(i), p] = count.get((int(i), p), 0) + 1
    for i, ch, lv, hl, by, tid, place in w.emitted:
        want = {}
        loose = set()
        if shown(o, ch, lv, by):
            prelude = place in ('slashrc', 'configure')
            own = w.session_path if tid is None else w.paths.get(tid)
            if own is not None:
                for p in ({own} if prelude else raw(own)):
                    want[p] = 1
                if prelude:
                    loose |= raw(own) - {own}
            if tid is not None and o['unified'] and own != w.session_path:
                want[w.session_path] = 1
                loose |= raw(w.session_path) - {w.session_path}
        if hl and not (ch == 'quiet' and o['silence']):
            h = w.hl.get(tid) or w.hl.get(None)
            if place in ('slashrc', 'configure'):
                loose.add(h)
            elif h:
                want[h] = want.get(h, 0) + 1
        if place == 'error' and o['as_errors']:
            # is mentioned by the error it adds as well
            continue
        for p in found:
            n = count.get((i, p), 0)
            if n != want.get(p, 0) and p not in loose:
                problems.append('a %s record of %s emitted at %s %s is %d times in %s instead of %d' % (lv, ch, place, 'of test %s' % w.names.get(tid) if tid else 'outside tests', n, os.path.relpath(p, real), want.get(p, 0)))
                if len(problems) > 8:
                    return


def deviations(n):
    names = sorted(OPTIONS)
    for k in range(n + 1):
        for which in itertools.combinations(names, k):
            for values in itertools.product(*[OPTIONS[x][1:] for x in which]):
                yield dict(BASE, **dict(zip(which, values)))


KEY = [dict(BASE, **x) for x in (
    {}, dict(cleanup='keep', links='relative'), dict(cleanup='all', unified=True, highlights='each'), dict(cleanup='keep', highlights='one', stop=True, links='absolute'),
    dict(unified=True, compression='gzip+raw', links='relative', as_errors=True), dict(subpath='session', links='absolute', as_errors=True, cleanup='keep'), dict(subpath='none', links='relative', unified=True, stop=True),
    dict(cleanup='keep', as_errors=True, highlights='each', subpath='index', silence=True, links='absolute'))]
VECTORS2 = [v for n in (1, 2) for v in itertools.product(ORDER, repeat=n)]
CORE = 'PASLK'
N = 48


def bound(tier):
    return 'all settings deviating in up to %d of %d options (%s) on suites of every kind of outcome; all vectors of up to 2 of %d outcomes and of 3 of %d x %d settings; 11 kinds of records at up to 25 places of every run' % (
        4 if tier == 'thorough' else 2, len(OPTIONS), 'and all of 3 on a smaller one' if tier != 'thorough' else 'x 3 suites', len(ORDER), len(ORDER) if tier == 'thorough' else len(CORE), len(KEY))


def cases(tier):
    for o in deviations(2):
        for v in ('PAS', 'RcP', 'AVK'):
            yield v, o
    for o in deviations(4 if tier == 'thorough' else 3):
        if sum(o[k] != BASE[k] for k in o) > 2:
            for v in (('AP',) if tier != 'thorough' else ('AP', 'PLK', 'tS')):
                yield v, o
    for v in VECTORS2:
        for o in KEY:
            yield ''.join(v), o
    for v in itertools.product(ORDER if tier == 'thorough' else CORE, repeat=3):
        for o in KEY:
            yield ''.join(v), o


def tasks(tier):
    for k in range(N):
        yield [tier, k]


def run_task(task, st):
    tier, k = task
    for n, (v, o) in enumerate(cases(tier)):
        if n % N == k:
            run(v, o, st)
            if len(st.violations) > 2:
                return
