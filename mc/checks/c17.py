"""C17: every argument list up to a length over flags and overrides of every type, given to real runs: what the test sees of the whole
configuration is compared with a reference reading of the arguments, and everything the run could leave behind with how it was before.
Failures of every kind are injected at every stage of a run, followed by a further run which must find the defaults."""
import contextlib, io, itertools, os, re, shutil, signal, sys, warnings
import gossip, logbook
import slash
from slash.ctx import context
from .. import world, env
from ..world import fresh_dir, write_tree

PROPERTY = 'C17'
ASSUMPTIONS = ['overrides (-o) are applied after the flags, whatever their order on the command line; within either the later wins',
               '--without-X wins over --with-X; plugins activated by a run stay active until deactivated',
               'what a customization file itself assigns is not undone']

_SEEN = []
FAULT = [None]      # (stage, exception kind)


class Rude(Exception):
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __str__


class Base(BaseException):
    pass


def make(kind):
    return {'E': lambda: ValueError('boom'), 'S': lambda: slash.exceptions.SlashException('slashing'), 'C': lambda: slash.exceptions.CannotLoadTests('cannot'),
            'R': Rude, 'K': KeyboardInterrupt, 'X': lambda: SystemExit(0), 'X3': lambda: SystemExit(3), 'XS': lambda: SystemExit('text'), 'B': Base,
            'T': lambda: slash.exceptions.TerminatedException('terminated'), 'A': lambda: AssertionError('failed'), 'O': lambda: OSError(2, 'no such thing')}[kind]()


def stage(name):
    if FAULT[0] is not None and FAULT[0][0] == name:
        raise make(FAULT[0][1])


def see():
    _SEEN.append((flat(slash.config.serialize_to_dict()), frozenset(slash.plugins.manager.get_active_plugins()), context.session is not None))


def flat(d, prefix=''):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flat(v, prefix + k + '.'))
        else:
            out[prefix + k] = v
    return out


TEST = '''import slash
from mc.checks import c17
c17.stage('import')
def test_a():
    c17.see()
    slash.add_cleanup(c17.stage, args=('cleanup',))
    slash.add_cleanup(c17.stage, args=('session_cleanup',), scope='session')
    c17.stage('test')
'''

# -- arguments: token list -> effect on the values, or None if it has to be refused ------------------------------------------------
class Refuse(Exception):
    pass


def conv(path, text, base):
    """an override's text as a value of the type of the option"""
    old = base[path]
    if old is None or isinstance(old, str):
        return text
    if isinstance(old, bool):
        if text.lower() in ('yes', 'y', 'true', 't'):
            return True
        if text.lower() in ('no', 'n', 'false', 'f'):
            return False
        raise Refuse()
    if isinstance(old, int):
        try:
            return int(text)
        except ValueError:
            raise Refuse()
    if isinstance(old, list):
        import ast
        try:
            v = ast.literal_eval(text)
        except (ValueError, SyntaxError):
            raise Refuse()
        return v
    raise AssertionError(path)


#: tokens: (arguments, what they do).  A flag sets, appends, or changes
def flag(path, f):
    return ('flag', path, f)


def put(path, text):
    return ('put', path, text)


def app(path, text):
    return ('app', path, text)


def over(text):
    return ('over', text)


FLAGS = [
    (['-x'], flag('run.stop_on_error', lambda v: True)), (['-X'], flag('run.stop_on_error', lambda v: False)),
    (['-v'], flag('log.console_level', lambda v: v - 1)), (['-q'], flag('log.console_level', lambda v: v + 1)), (['-vv'], flag('log.console_level', lambda v: v - 2)),
    (['--tb', '3'], put('log.console_traceback_level', '3')), (['--tb=1'], put('log.console_traceback_level', '1')), (['--tb', 'x'], put('log.console_traceback_level', 'x')),
    (['--repeat-each', '1'], put('run.repeat_each', '1')), (['--repeat-each=2'], put('run.repeat_each', '2')), (['--repeat-each', '1.5'], put('run.repeat_each', '1.5')),
    (['-k', 'test_a'], app('run.filter_strings', 'test_a')), (['-k', 'a'], app('run.filter_strings', 'a')),
    (['--truncate-console-lines', 'no'], put('log.truncate_console_lines', 'no')), (['--truncate-console-lines', 'Y'], put('log.truncate_console_lines', 'Y')),
    (['--truncate-console-lines', '1'], put('log.truncate_console_lines', '1')),
    (['--no-color'], flag('log.color_console', lambda v: False)), (['--force-color'], flag('log.color_console', lambda v: True)),
    (['--pdb-filter', 'f'], app('debug.filter_strings', 'f')), (['--failed-first'], flag('resume.failed_first', lambda v: True)),
    (['--xunit-filename', 'x.xml'], put('plugin_config.xunit.filename', 'x.xml')), (['--xunit-filename='], put('plugin_config.xunit.filename', '')),
    (['--parallel-addr', 'h'], put('parallel.server_addr', 'h')), (['--workers-error-dir', 'd'], put('parallel.workers_error_dir', 'd')),
]
OVERRIDES = [
    'run.stop_on_error=yes', 'run.stop_on_error=F', 'run.stop_on_error=TRUE', 'run.stop_on_error=', 'run.stop_on_error=maybe', 'run.stop_on_error=1',
    'log.console_level=9', 'log.console_level=-1', 'log.console_level=x', 'run.repeat_all=2', 'run.repeat_all= 1 ', 'run.repeat_all=1e0', 'log.format={record.message}', 'log.format=', 'log.format=a=b=c',
    "log.silence_loggers=['a', 'b']", 'log.silence_loggers=[]', 'log.silence_loggers=[', 'log.silence_loggers=a b', "run.filter_strings=['a']",
    'plugin_config.xunit.filename=y.xml', 'debug.debugger=none', 'log.subpath=x', 'log.cleanup.enabled=yes', 'parallel.communication_timeout_secs=61',
    # refused for what they name
    'log=5', 'nosuch=1', 'log.nosuch=1', '=5', '', 'noequals', 'run.=1', '.=1', 'log.root.x=1', 'log.format.=1', 'plugin_config.nosuch.x=1', 'plugin_config={}', 'log.cleanup=x',
]
TOKENS = FLAGS + [(['-o', o], over(o)) for o in OVERRIDES] + [(['-ofoo=1'], over('foo=1')), (['-olog.root=r'], over('log.root=r'))]
#: those of the triples
CORE = [t for t in TOKENS if ' '.join(t[0]) in (
    '-x', '-X', '-v', '-q', '--tb 3', '--tb x', '-k test_a', '--repeat-each=2', '--no-color', '-o run.stop_on_error=yes', '-o run.stop_on_error=F', '-o log.console_level=9', '-o run.stop_on_error=maybe',
    '-o log=5', '-o nosuch=1', "-o log.silence_loggers=['a', 'b']", '-o log.silence_loggers=[', '-o log.format=a=b=c', '-o log.format=', '-o noequals', '--xunit-filename x.xml')]


def reference(effects, base):
    """the configuration under the arguments"""
    values = dict(base)
    out = dict(base)
    # a single value is given before things which change it
    for path in {e[1] for e in effects if e[0] in ('put', 'app', 'flag')}:
        v = base[path]
        puts = [e[2] for e in effects if e[0] == 'put' and e[1] == path]
        apps = [e[2] for e in effects if e[0] == 'app' and e[1] == path]
        if puts:
            v = conv(path, puts[-1], base)
        if apps:
            v = list(v) + apps
        for e in effects:
            if e[0] == 'flag' and e[1] == path:
                v = e[2](v)
        out[path] = v
    for e in effects:
        if e[0] == 'over':
            if '=' not in e[1]:
                raise Refuse()
            path, text = e[1].split('=', 1)
            if path not in base:
                raise Refuse()
            out[path] = conv(path, text, out)
    assert values == base
    return out


def snapshot():
    return dict(config=repr(sorted(flat(slash.config.serialize_to_dict()).items())), depth=world.context_depth(), session=context.session, test=context.test_id,
                sigterm=signal.getsignal(signal.SIGTERM), sigint=signal.getsignal(signal.SIGINT), showwarning=warnings.showwarning, filters=list(warnings.filters),
                handlers=[id(h) for h in logbook.Handler.stack_manager.iter_context_objects()], path=list(sys.path), cwd=os.getcwd(), hook=sys.excepthook,
                colors=os.environ.get('PY_COLORS'))


def diff(a, b):
    return [re.sub(r' at 0x[0-9a-f]+|[0-9]{9,}', '', x) for x in _diff(a, b)]


def _diff(a, b):
    return ['%s: %s' % (k, '%s -> %s' % (a[k], b[k]) if k not in ('config', 'filters') else sorted(set(map(str, eval_items(b[k]))) - set(map(str, eval_items(a[k]))))[:4] or 'differs') for k in a if a[k] != b[k]]


def eval_items(x):
    return x.split('), (') if isinstance(x, str) else x


class Runner(object):
    """a directory and a process state in which runs are made"""

    def __enter__(self):
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(world.isolated())
        self.d = fresh_dir('c17')
        self.err = io.StringIO()
        self.env = os.environ.get('PY_COLORS')
        self.stack.enter_context(contextlib.redirect_stderr(self.err))
        write_tree(self.d, {'test_a.py': TEST})
        for k, v in {'run.resume_state_path': world.resume_dir(), 'run.project_customization_file_path': os.path.join(self.d, '.slashrc'), 'run.project_name': 'p',
                     'run.user_customization_file_path': os.path.join(self.d, '.nouser')}.items():
            slash.config.assign_path(k, v)
        self.plugins = set(slash.plugins.manager.get_installed_plugins())
        self.active = set(slash.plugins.manager.get_active_plugins())
        return self

    def __exit__(self, *e):
        m = slash.plugins.manager
        for p in set(m.get_installed_plugins()) - self.plugins:
            m.uninstall(p)
        for p in set(m.get_active_plugins()) - self.active:
            m.deactivate(p)
        for p in self.active - set(m.get_active_plugins()):
            m.activate(p)
        m._pending_activation.clear()
        m._pending_deactivation.clear()
        gossip.unregister_token('c17')
        if self.env is None:
            os.environ.pop('PY_COLORS', None)
        else:
            os.environ['PY_COLORS'] = self.env
        self.stack.__exit__(None, None, None)
        shutil.rmtree(self.d, True)

    def run(self, args, **kw):
        del _SEEN[:]
        return world.run_session(self.d, [os.path.join(self.d, 'test_a.py')] + list(args), isolate=False, **kw)


def run_args(tokens, st, plain_after=False):
    FAULT[0] = None
    args = [a for t in tokens for a in t[0]]
    bad = []
    with Runner() as r:
        before = snapshot()
        base = flat(slash.config.serialize_to_dict())
        try:
            want = reference([t[1] for t in tokens], base)
        except Refuse:
            want = None
        out = r.run(args)
        after = snapshot()
        seen = list(_SEEN)
        code = out.exit_code
        if isinstance(out.raised, SystemExit):
            code = out.raised.code
        elif out.raised is not None:
            bad.append('raised %r' % (out.raised,))
        if want is None:
            st.count('refused')
            if seen or not code:
                bad.append('%s with exit code %s although it has to be refused' % ('ran' if seen else 'ended', code))
        else:
            filters = want['run.filter_strings']
            times = max(want['run.repeat_each'], 0) * max(want['run.repeat_all'], 0)
            if len(seen) != times:
                bad.append('ran the test %d times instead of %d: %s' % (len(seen), times, out.report.getvalue()[-300:]))
            for values, _, _ in seen[:1]:
                d = {k: (values.get(k), want.get(k)) for k in set(values) | set(want) if repr(values.get(k)) != repr(want.get(k))}
                if d:
                    bad.append('configuration (seen, expected): %s' % d)
        if before != after:
            bad.append('left behind: %s' % '; '.join(diff(before, after)))
        if plain_after and not bad:
            out = r.run([])
            if not _SEEN or repr(sorted(_SEEN[0][0].items())) != repr(sorted(base.items())):
                bad.append('the next run is affected')
    st.state(args)
    st.execution((args, want is None, repr(seen[:1] and sorted((k, v) for k, v in seen[0][0].items() if base.get(k) != v))), sample=dict(arguments=args, refused=want is None))
    if bad:
        st.violation('arguments %s: %s' % (args, '; '.join(bad[:3])), dict(args=args, problems=bad))


# -- stages ---------------------------------------------------------------------------------------------------------------------
STAGES = ['slashrc', 'parser', 'configure', 'activate', 'from_args', 'callback', 'tests_loaded', 'import', 'before_session_start', 'session_start', 'after_session_start', 'test_start', 'test',
          'cleanup', 'test_end', 'before_session_cleanup', 'session_cleanup', 'session_end', 'after_session_end', 'result_summary', 'app_quit', 'reporter', None]
KINDS = ['E', 'S', 'C', 'R', 'K', 'X', 'X3', 'XS', 'B', 'T', 'A', 'O']
HOOKS = ('configure', 'tests_loaded', 'before_session_start', 'session_start', 'after_session_start', 'test_start', 'test_end', 'before_session_cleanup', 'session_end', 'after_session_end', 'result_summary',
         'app_quit')
ARGS = [[], ['-x', '-o', 'log.console_level=14', '-o', 'run.stop_on_error=no'], ['--with-c17 plugin', '-v'], ['-o', 'log.root=LOGS', '-o', 'log.unified_session_log=yes', '--with-c17 plugin'], ['-o', 'log=5', '-v'], ['--tb', 'x', '-x'],
        ['--force-color', '--with-xunit', '--xunit-filename', 'XML'], ['--with-nosuch', '-x'],
        ['-l', '/dev/null/x', '-v'], ['-l', 'LOGS', '-o', 'log.compression.enabled=yes', '-o', 'log.compression.algorithm=zip'], ['-l', 'LOGS', '-o', 'log.session_subpath={nosuch}', '-x'],
        ['-l', 'LOGS', '-o', 'log.subpath={nosuch}']]


class Plug(slash.plugins.interface.PluginInterface):
    def get_name(self):
        return 'c17 plugin'

    def get_default_config(self):
        return {'opt': 1 // slash.utils.conf_utils.Cmdline(arg='--c17-opt')}

    def activate(self):
        stage('activate')

    def configure_argument_parser(self, parser):
        stage('parser')
        parser.add_argument('--c17-flag', action='store_true')

    def configure_from_parsed_args(self, args):
        stage('from_args')


def run_stage(fault, args, st, second=None):
    bad = []
    with Runner() as r:
        write_tree(r.d, {'.slashrc': 'from mc.checks import c17\nc17.stage("slashrc")\n'})
        slash.plugins.manager.install(Plug())
        for h in HOOKS:
            def cb(_h=h, **_):
                stage(_h)
            gossip.register(cb, 'slash.' + h, token='c17')
        argv = [{'LOGS': os.path.join(r.d, 'logs'), 'XML': os.path.join(r.d, 'x.xml')}.get(a, a.replace('LOGS', os.path.join(r.d, 'logs')).replace('c17 plugin', 'c17-plugin')) for a in args]
        refused = args in (['-o', 'log=5', '-v'], ['--tb', 'x', '-x'], ['--with-nosuch', '-x'])
        before = snapshot()
        FAULT[0] = fault

        def callback(app):
            stage('callback')
            rep = app.session.reporter
            if fault and fault[0] == 'reporter':
                def fail(*_):
                    stage('reporter')
                rep.report_session_end = fail
        try:
            out = r.run(argv, app_callback=callback)
        finally:
            FAULT[0] = None
        after = snapshot()
        if before != after:
            bad.append('left behind: %s' % '; '.join(diff(before, after)))
        # a run which does not get as far as having an application ends by the exception itself, and so do those of failures as it quits
        early = fault and fault[0] in ('slashrc', 'parser', 'configure', 'activate', 'from_args')
        late = fault and fault[0] in ('app_quit', 'result_summary', 'reporter')
        own = fault and type(make(fault[1]))
        exiting = isinstance(out.raised, SystemExit) and bool(out.raised.code)
        if out.raised is not None and not late and not (fault and fault[1] in 'BK') and not (early and not isinstance(out.raised, Exception) and isinstance(out.raised, own)) and not (exiting and refused):
            bad.append('raised %s' % type(out.raised).__name__)
        n = len(_SEEN)
        code = out.exit_code
        out2 = r.run([])
        if out2.raised is not None or out2.exit_code != 0 or len(_SEEN) != 1:
            bad.append('the next run: %r, exit code %s, %d tests: %s' % (out2.raised, out2.exit_code, len(_SEEN), out2.report.getvalue()[-300:]))
        if snapshot() != before:
            bad.append('left behind after the next: %s' % '; '.join(diff(before, snapshot())))
        for values, _, _ in _SEEN[:1]:
            b = before['config']
            if repr(sorted(values.items())) != b:
                bad.append('the next run does not find the configuration as before')
    st.state((fault, args))
    st.execution((fault, args, n, code, type(out.raised).__name__), sample=dict(fault=fault, arguments=args, exit_code=code))
    if bad:
        st.violation('%s at %s with %s: %s' % (fault and fault[1], fault and fault[0], args, '; '.join(bad[:3])), dict(fault=fault, args=args, problems=bad))


# -- plugin flags -----------------------------------------------------------------------------------------------------------------
class Simple(slash.plugins.interface.PluginInterface):
    def __init__(self, name):
        self.name = name
        self.args = []

    def get_name(self):
        return self.name

    def configure_argument_parser(self, parser):
        parser.add_argument('--%s-opt' % self.name.replace(' ', '-'), default='unset', dest='c17_' + self.name.replace(' ', '_'))

    def configure_from_parsed_args(self, args):
        self.args.append(getattr(args, 'c17_' + self.name.replace(' ', '_')))


PFLAGS = ['--with-pa', '--without-pa', '--with-p-b', '--without-p-b', '--with-nosuch', '--without-nosuch', '--pa-opt=1', '--p-b-opt=2']


def run_plugins(init, flags, st):
    """init: for each plugin one of '' (installed), 'a' (active), 'l' (to be activated later)"""
    FAULT[0] = None
    bad = []
    with Runner() as r:
        m = slash.plugins.manager
        pa, pb = Simple('pa'), Simple('p b')
        for p, i in zip((pa, pb), init):
            m.install(p, activate=i == 'a', activate_later=i == 'l')
        before = snapshot()
        out = r.run(flags)
        refuse = '--with-nosuch' in flags or '--without-nosuch' in flags
        if refuse:
            if _SEEN or not out.exit_code:
                bad.append('unknown plugins are accepted')
        else:
            want = set(r.active)
            for p, i, c in zip((pa, pb), init, ('pa', 'p-b')):
                on = ((i in ('a', 'l')) or '--with-' + c in flags) and '--without-' + c not in flags
                if on:
                    want.add(p.name)
                opts = [f.split('=')[1] for f in flags if f.startswith('--%s-opt' % c)]
                if p.args != (opts[-1:] or ['unset'] if on else []):
                    bad.append('%s is configured by %s' % (p.name, p.args))
            if [set(s[1]) for s in _SEEN] != [want]:
                bad.append('active plugins %s instead of %s' % ([sorted(s[1]) for s in _SEEN], sorted(want)))
            if out.exit_code:
                bad.append('exit code %s' % out.exit_code)
        if snapshot() != before:
            bad.append('left behind: %s' % '; '.join(diff(before, snapshot())))
        if not refuse and not bad:
            # a further run has the plugins which became active, and their options anew
            was = set(m.get_active_plugins())
            del pa.args[:], pb.args[:]
            out = r.run([])
            if [set(s[1]) for s in _SEEN] != [was] or any(p.args != (['unset'] if p.name in was else []) for p in (pa, pb)):
                bad.append('the next run has plugins %s' % [sorted(s[1]) for s in _SEEN])
    st.state((init, flags))
    st.execution((init, flags, repr(_SEEN and sorted(_SEEN[0][1]))), sample=dict(plugins=init, flags=flags))
    if bad:
        st.violation('plugins %s, flags %s: %s' % (init, flags, '; '.join(bad[:3])), dict(init=init, flags=flags, problems=bad))


NA, NS, NP = 48, 24, 12


def bound(tier):
    return 'all lists of up to 2 of %d arguments, of 3 of %d; all %d stages x %d kinds of failure x %d argument lists, followed by a plain run; all lists of up to %d of %d plugin flags x 9 initial states' % (
        len(TOKENS), len(TOKENS) if tier == 'thorough' else len(CORE), len(STAGES) - 1, len(KINDS), len(ARGS), 4 if tier == 'thorough' else 3, len(PFLAGS))


def tasks(tier):
    for k in range(NA):
        yield ['args', tier, k]
    for k in range(NS):
        yield ['stage', tier, k]
    for k in range(NP):
        yield ['plug', tier, k]


def arg_lists(tier):
    for n in (0, 1, 2):
        yield from itertools.product(TOKENS, repeat=n)
    if tier == 'thorough':
        yield from itertools.product(TOKENS, repeat=3)
    else:
        yield from itertools.product(CORE, repeat=3)


def run_task(task, st):
    fam, tier, k = task
    if fam == 'args':
        for n, t in enumerate(arg_lists(tier)):
            if n % NA == k:
                run_args(t, st, plain_after=len(t) < 2)
                if len(st.violations) > 2:
                    return
    elif fam == 'stage':
        cases = [(s and (s, kd), a) for s in STAGES for kd in (KINDS if s else KINDS[:1]) for a in ARGS]
        for n, (f, a) in enumerate(cases):
            if n % NS == k:
                run_stage(f, a, st)
                if len(st.violations) > 2:
                    return
    else:
        cases = [(i, list(f)) for i in itertools.product(('', 'a', 'l'), repeat=2) for n in range(5 if tier == 'thorough' else 4) for f in itertools.product(PFLAGS, repeat=n)]
        for n, (i, f) in enumerate(cases):
            if n % NP == k:
                run_plugins(i, f, st)
                if len(st.violations) > 2:
                    return
