"""C14: explicit-state exploration of the real plugin manager: breadth-first over every sequence of operations of a small
universe of plugins, each state rebuilt on a fresh manager, compared with a set model after every step."""
import gossip
from .. import env, world
from ..core import h
import slash
from slash import plugins
from slash.plugins import PluginInterface, registers_on, register_if, provides
from slash.plugins.plugin_manager import PluginManager, IncompatiblePlugin, UnknownPlugin, IllegalPluginName
from sentinels import NOTHING

PROPERTY = 'C14'
ASSUMPTIONS = ['one session at a time; plugin callbacks themselves do not fail', 'a plugin registered under a name already in use replaces the earlier one']

LOG = []


class Base(PluginInterface):
    def __init__(self, ident, name):
        self.ident, self._name = ident, name

    def get_name(self):
        return self._name

    def activate(self):
        LOG.append((self.ident, 'activate()'))

    def deactivate(self):
        LOG.append((self.ident, 'deactivate()'))


class Plain(Base):
    EVENTS = {'start': 1, 'test': 1, 'end': 1, 'tend': 0, 'custom': 0, 'skip': 0}
    attr = 'not callable'

    def session_start(self):
        LOG.append((self.ident, 'start'))

    def test_start(self):
        LOG.append((self.ident, 'test'))

    def session_end(self):
        LOG.append((self.ident, 'end'))

    def _private(self):
        LOG.append((self.ident, 'BAD private'))


class EndOnly(Base):
    EVENTS = {'start': 0, 'test': 0, 'end': 1, 'tend': 2, 'custom': 1, 'skip': 1}

    def session_end(self):
        LOG.append((self.ident, 'end'))

    @registers_on('c14.custom')
    @registers_on(None)
    @registers_on('slash.test_end')
    def several(self):
        LOG.append((self.ident, 'several'))

    @registers_on('slash.test_end')
    def _also(self):
        LOG.append((self.ident, 'several'))

    @registers_on(None)
    def test_start(self):
        LOG.append((self.ident, 'BAD none'))

    @register_if(False)
    @registers_on('slash.test_end')
    @registers_on('c14.custom')
    def other(self):
        LOG.append((self.ident, 'BAD if'))

    @register_if(False)
    def test_success(self):
        LOG.append((self.ident, 'BAD if'))

    @register_if(True)
    def test_skip(self, reason):
        LOG.append((self.ident, 'skip'))


class Derived(Plain):
    EVENTS = {'start': 1, 'test': 1, 'end': 1, 'tend': 1, 'custom': 0, 'skip': 0}

    def get_default_config(self):
        return {'x': 1}

    def test_end(self):
        LOG.append((self.ident, 'several'))


@provides('cap')
class Broken(Base):
    EVENTS = {'start': 1, 'test': 1, 'end': 1, 'tend': 0, 'custom': 0, 'skip': 0}

    def session_start(self):
        LOG.append((self.ident, 'start'))

    def test_start(self):
        LOG.append((self.ident, 'test'))

    def session_end(self):
        LOG.append((self.ident, 'end'))

    def no_such_hook(self):
        pass

    def zz_no_such_hook(self):
        pass


class Raising(Plain):
    def activate(self):
        raise RuntimeError('refuses to be activated')


@provides('cap')
class Provider(Base):
    EVENTS = {'start': 0, 'test': 1, 'end': 1, 'tend': 0, 'custom': 0, 'skip': 0}

    def test_start(self):
        LOG.append((self.ident, 'test'))

    def session_end(self):
        LOG.append((self.ident, 'end'))


MAKE = {
    'A': lambda: Plain('A', 'alpha'), 'A2': lambda: Derived('A2', 'alpha'), 'AX': lambda: Broken('AX', 'alpha'),
    'B': lambda: EndOnly('B', 'beta gamma'), 'D': lambda: Derived('D', 'delta'), 'P': lambda: Provider('P', 'prov'),
    'X': lambda: Broken('X', 'broken'), 'R': lambda: Raising('R', 'raising'),
}
REFUSES = {'AX': IncompatiblePlugin, 'X': IncompatiblePlugin, 'R': RuntimeError}
NAME = {k: MAKE[k]().get_name() for k in MAKE}
EVENTS = {k: MAKE[k]().EVENTS for k in MAKE}
TRIGGERS = [('test', 'slash.test_start', {}), ('tend', 'slash.test_end', {}), ('custom', 'c14.custom', {}), ('skip', 'slash.test_skip', {'reason': 'x'})]
LABEL = {'tend': 'several', 'custom': 'several'}

UNIVERSES = {
    'quick': [['A', 'A2'], ['A', 'B'], ['A', 'X'], ['A', 'R'], ['A', 'AX'], ['B', 'D'], ['P', 'X'], ['P', 'B'], ['D', 'X']],
    'thorough': [['A', 'A2', 'B'], ['A', 'B', 'X'], ['A', 'AX', 'B'], ['P', 'A', 'R'], ['A', 'A2', 'AX'], ['B', 'D', 'X']],
}
MINIMUMS = {'states': 300, 'executions': 3000, 'refused': 100}


def bound(tier):
    us = UNIVERSES['quick'] + (UNIVERSES['thorough'] if tier == 'thorough' else [])
    return 'every reachable state (to a fixpoint) of the plugin manager over %d universes of 2%s plugins; every operation from each; one restoring context at a time, one session at a time' % (
        len(us), '-3' if tier == 'thorough' else '')


PROFILES = {
    'session': ['install plain', 'install activate', 'uninstall', 'activate', 'deactivate', 'start', 'end'],
    'pending': ['install later', 'install internal', 'uninstall', 'activate', 'deactivate', 'activate_later', 'deactivate_later', 'pending'],
    'context': ['install plain', 'install activate', 'install internal', 'uninstall', 'activate', 'deactivate', 'enter', 'leave', 'leave_exc'],
}


def ops_of(universe, profile):
    for op in all_ops(universe):
        name = op[0] + (' ' + op[2] if op[0] == 'install' else '')
        if profile == 'all' or name in PROFILES[profile]:
            yield op


def all_ops(universe):
    for p in universe:
        for mode in ('plain', 'activate', 'later', 'internal'):
            yield ('install', p, mode)
        yield ('uninstall', p, 'obj')
        yield ('activate', p, 'obj')
        yield ('activate', p, 'name')
        yield ('deactivate', p, 'obj')
        yield ('deactivate', p, 'name')
        yield ('activate_later', p, 'obj')
        yield ('deactivate_later', p, 'name')
    yield ('uninstall', universe[0], 'name')
    yield ('uninstall', universe[0], 'type')
    yield ('activate_later', universe[-1], 'type')
    yield ('pending',)
    yield ('start',)
    yield ('end',)
    yield ('enter',)
    yield ('leave',)
    yield ('leave_exc',)


# ------------------------------------------------------------------------------------------------ model
class M(object):
    """installed: name -> (ident, internal); active: set of names; started: idents whose session is open."""
    def __init__(self):
        self.installed, self.active, self.pa, self.pd = {}, set(), set(), set()
        self.started = set()
        self.session = False
        self.saved = None
        self.counts = {}

    def key(self):
        return (tuple(sorted(self.installed.items())), tuple(sorted(self.active)), tuple(sorted(self.pa)), tuple(sorted(self.pd)),
                tuple(sorted(self.started)), self.session, repr(self.saved))

    def copy(self):
        m = M()
        m.installed, m.active, m.pa, m.pd, m.started = dict(self.installed), set(self.active), set(self.pa), set(self.pd), set(self.started)
        m.session, m.saved = self.session, self.saved
        return m

    def resolve(self, p, how):
        """-> name, or None when refused"""
        n = NAME[p]
        if n not in self.installed:
            return None
        if how == 'obj' and self.installed[n][0] != p:
            return None
        if how == 'type' and type(MAKE[self.installed[n][0]]()) is not type(MAKE[p]()):
            return None
        return n

    def _deactivate(self, n):
        if n in self.active:
            self.active.discard(n)
            self.started.discard(self.installed[n][0])

    def _uninstall(self, n):
        self._deactivate(n)
        del self.installed[n]
        self.pa.discard(n)
        self.pd.discard(n)

    def apply(self, op):
        """-> None or the expected exception type(s); on refusal the state stays"""
        kind = op[0]
        if kind == 'install':
            _, p, mode = op
            n = NAME[p]
            if mode == 'activate' and p in REFUSES and REFUSES[p] is IncompatiblePlugin:
                if not (n in self.active and self.installed[n][0] == p):
                    return IncompatiblePlugin
            if n in self.installed and self.installed[n][0] != p:
                self._uninstall(n)
            self.installed[n] = (p, mode == 'internal')
            if mode == 'activate':
                if p in REFUSES:
                    return REFUSES[p]
                self.active.add(n)
            elif mode == 'later':
                self.pa.add(n)
            return None
        if kind in ('uninstall', 'activate', 'deactivate', 'activate_later', 'deactivate_later'):
            n = self.resolve(op[1], op[2])
            if n is None:
                return UnknownPlugin
            if kind == 'uninstall':
                self._uninstall(n)
            elif kind == 'activate':
                if self.installed[n][0] in REFUSES:
                    return REFUSES[self.installed[n][0]]
                self.active.add(n)
            elif kind == 'deactivate':
                self._deactivate(n)
            elif kind == 'activate_later':
                self.pa.add(n)
            else:
                self.pd.add(n)
            return None
        if kind == 'pending':
            for n in sorted(self.pa):
                if n not in self.pd and self.installed[n][0] in REFUSES:
                    return 'pending-refused'
            for n in self.pa - self.pd:
                self.active.add(n)
            for n in self.pd:
                self._deactivate(n)
            self.pa, self.pd = set(), set()
            return None
        if kind == 'start':
            self.session = True
            self.started = set(self.installed[n][0] for n in self.active if EVENTS[self.installed[n][0]]['end'])
            return None
        if kind == 'end':
            self.session = False
            self.started = set()
            return None
        if kind == 'enter':
            self.saved = (dict(self.installed), set(self.active))
            return None
        if kind in ('leave', 'leave_exc'):
            inst, act = self.saved
            self.saved = None
            for n in list(self.installed):
                if n not in inst or inst[n][0] != self.installed[n][0]:
                    self._uninstall(n)
            for n in list(self.active):
                if n not in act:
                    self._deactivate(n)
            self.installed, self.active = dict(inst), set(act)
            return None
        raise AssertionError(op)

    def after_refusal(self, op):
        # an active plugin that was about to be replaced is activated anew: it no longer takes part in the current session's end
        n = NAME[op[1]]
        if op[0] == 'install' and n in self.installed and self.installed[n][0] != op[1]:
            self.started.discard(self.installed[n][0])

    def enabled(self, op):
        if op[0] == 'start':
            return not self.session
        if op[0] == 'end':
            return self.session
        if op[0] == 'enter':
            return self.saved is None
        if op[0] in ('leave', 'leave_exc'):
            return self.saved is not None
        if op[0] == 'install' and op[1] == 'R' and op[2] == 'activate':
            return True
        return True


# ------------------------------------------------------------------------------------------------ real
class Real(object):
    def __init__(self, universe):
        for hook in gossip.get_all_hooks():
            if hook.full_name.startswith(('slash.', 'c14.')):
                hook.unregister_all()
        hook = gossip.hooks.get_or_create_hook('c14.custom')
        self.mgr = PluginManager()
        for name in list(self.mgr.get_installed_plugins()):
            self.mgr.uninstall(name)
        self.obj = {p: MAKE[p]() for p in universe}
        self.ident = {id(o): p for p, o in self.obj.items()}
        self.ctx = None

    def target(self, p, how):
        o = self.obj[p]
        return o if how == 'obj' else type(o) if how == 'type' else o.get_name()

    def apply(self, op):
        kind = op[0]
        try:
            if kind == 'install':
                _, p, mode = op
                kw = {'plain': {}, 'activate': dict(activate=True), 'later': dict(activate_later=True), 'internal': dict(is_internal=True)}[mode]
                self.mgr.install(self.obj[p], **kw)
            elif kind in ('uninstall', 'activate', 'deactivate', 'activate_later', 'deactivate_later'):
                getattr(self.mgr, kind)(self.target(op[1], op[2]))
            elif kind == 'pending':
                self.mgr.activate_pending_plugins()
            elif kind == 'start':
                gossip.trigger('slash.session_start')
            elif kind == 'end':
                gossip.trigger('slash.session_end')
            elif kind == 'enter':
                self.ctx = self.mgr.restoring_state_context()
                self.ctx.__enter__()
            elif kind == 'leave':
                self.ctx.__exit__(None, None, None)
            else:
                e = ZeroDivisionError()
                try:
                    self.ctx.__exit__(ZeroDivisionError, e, None)
                except ZeroDivisionError:
                    pass
        except Exception as e:
            return e
        return None

    def view(self):
        inst = self.mgr.get_installed_plugins()
        ext = self.mgr.get_installed_plugins(include_internals=False)
        act = self.mgr.get_active_plugins()
        fut = self.mgr.get_future_active_plugins()
        f = lambda d: {n: self.ident.get(id(o), repr(o)) for n, o in d.items()}
        return f(inst), f(ext), f(act), f(fut)

    def registrations(self):
        """for telling states apart only"""
        out = []
        for hook in gossip.get_all_hooks():
            for r in hook.get_registrations(include_empty=True):
                o = getattr(r.func, '__self__', None)
                out.append((hook.full_name, r.token, self.ident.get(id(o), '-')))
        tog = []
        for p, o in sorted(self.obj.items()):
            t = getattr(o, '__toggles__', None)
            tog.append(t['session'].is_on() if t and 'session' in t else None)
        return tuple(sorted(map(repr, out))), tuple(tog)


def probe(real, model, st, path, bad):
    """Trigger every hook; each active plugin's callback exactly once, nobody else's."""
    inst, ext, act, fut = real.view()
    want_inst = {n: p for n, (p, i) in model.installed.items()}
    want_ext = {n: p for n, (p, i) in model.installed.items() if not i}
    want_act = {n: want_inst[n] for n in model.active}
    want_fut = dict(want_act)
    want_fut.update({n: want_inst[n] for n in model.pa})
    for n in model.pd:
        want_fut.pop(n, None)
    for what, got, want in (('installed', inst, want_inst), ('installed (without internal)', ext, want_ext), ('active', act, want_act), ('future active', fut, want_fut)):
        if got != want:
            bad.append('%s plugins are %s, expected %s' % (what, got, want))
    for ev, hook, kw in TRIGGERS:
        del LOG[:]
        gossip.trigger(hook, **kw)
        got = sorted(x for x in LOG)
        want = sorted((p, LABEL.get(ev, ev)) for p in want_act.values() for _ in range(EVENTS[p][ev]))
        if got != want:
            bad.append('%s reached %s, expected %s' % (hook, got, want))
    for n, p in want_inst.items():
        try:
            if real.mgr.get_plugin(n) is not real.obj[p]:
                bad.append('get_plugin(%r) is another plugin' % n)
        except Exception as e:
            bad.append('get_plugin(%r): %r' % (n, e))


def run_path(universe, path, st, check_last=True):
    """Replays the path on a fresh manager; checks the last step.  -> (model, real, bad)"""
    if True:
        real = Real(universe)
        model = M()
        bad = []
        for k, op in enumerate(path):
            last = k == len(path) - 1
            before = model.copy()
            del LOG[:]
            exp = model.apply(op)
            err = real.apply(op)
            log = list(LOG)
            if exp is not None and op[0] != 'pending':
                if not (op[0] == 'install' and exp is RuntimeError):
                    # refused: nothing changes (installing a plugin whose own activate() raises leaves it installed, inactive)
                    model = before
                    model.after_refusal(op)
            if not last:
                if exp == 'pending-refused':
                    raise AssertionError('path through a partially refused step')
                continue
            if exp == 'pending-refused':
                return None, real, [], True
            if exp is None and err is not None:
                bad.append('refused: %s: %s' % (type(err).__name__, err))
            elif exp is not None and not isinstance(err, exp):
                bad.append('expected %s, got %r' % (exp.__name__, err))
            if exp is not None:
                st.count('refused')
            if op[0] == 'start':
                want = sorted((before.installed[n][0], 'start') for n in before.active if EVENTS[before.installed[n][0]]['start'])
                if sorted(log) != want:
                    bad.append('session_start reached %s, expected %s' % (sorted(log), want))
            elif op[0] == 'end':
                want = sorted((p, 'end') for p in before.started)
                if sorted(log) != want:
                    bad.append('session_end reached %s, expected %s' % (sorted(log), want))
            else:
                # the plugin's own activate() / deactivate() are called exactly when it becomes active / inactive
                for name in set(before.installed) | set(model.installed):
                    pass
                b = set(before.installed[n][0] for n in before.active)
                a = set(model.installed[n][0] for n in model.active)
                for p in universe:
                    if p in REFUSES:
                        continue
                    ups, downs = log.count((p, 'activate()')), log.count((p, 'deactivate()'))
                    if exp is not None and op[0] == 'install':
                        if ups != downs and (ups - downs) != (p in a) - (p in b):
                            bad.append('%s: activate() %d, deactivate() %d times by a refused operation' % (p, ups, downs))
                        continue
                    if (ups, downs) != (int(p in a and p not in b), int(p in b and p not in a)):
                        bad.append('%s: activate() called %d, deactivate() %d times; active before: %s, after: %s' % (p, ups, downs, p in b, p in a))
            probe(real, model, st, path, bad)
        if not path:
            probe(real, model, st, path, bad)
        key = (model.key(), real.registrations())
        return key, model, bad, False


def tasks(tier):
    for u in UNIVERSES['quick']:
        for prof in sorted(PROFILES):
            yield [u, prof]
    if tier == 'thorough':
        for u in UNIVERSES['quick']:
            yield [u, 'all']
        for u in UNIVERSES['thorough']:
            for prof in sorted(PROFILES):
                yield [u, prof]



def run_task(task, st):
    universe, profile = task
    universe = list(universe)
    ops = list(ops_of(universe, profile))
    seen = set()
    frontier = [()]
    key, model, bad, _ = run_path(universe, (), st)
    if bad:
        st.violation('initial state: %s' % '; '.join(bad), dict(universe=universe))
        return
    seen.add(h(key))
    depth = 0
    while frontier:
        nxt = []
        for path in frontier:
            for op in ops:
                m = M()
                for o in path:
                    b = m.copy()
                    if m.apply(o) is not None and not (o[0] == 'install' and o[1] == 'R' and o[2] == 'activate'):
                        m = b
                        m.after_refusal(o)
                if not m.enabled(op):
                    continue
                p = path + (op,)
                key, _, bad, dead = run_path(universe, p, st)
                st.execution((universe, p), sample=dict(universe=universe, operations=p) if len(p) > 3 else None)
                st.transitions += 1
                if dead:
                    continue
                if bad:
                    st.violation('plugins %s, operations %s: %s' % (universe, list(p), '; '.join(bad[:3])), dict(universe=universe, operations=p))
                    return
                k = h(key)
                if k not in seen:
                    seen.add(k)
                    st.states.add(h((universe, key)))
                    nxt.append(p)
        frontier = nxt
        depth += 1
        if depth > DEPTH:
            st.capped = True
            break


DEPTH = 30
