"""C15: every needs/provides relation over small sets of plugins, in every activation order, on the real plugin manager and
hooks, against a dependency-graph model."""
import itertools
import gossip
from .. import env, world
import slash
from slash import plugins
from slash.plugins import PluginInterface, registers_on, provides, needs
from slash.plugins.plugin_manager import PluginManager

PROPERTY = 'C15'
ASSUMPTIONS = ['capabilities are declared with needs / provides on plugins, on their methods, or through registers_on']
MINIMUMS = {'cycles': 10, 'unmet': 50, 'ordered': 200}

LOG = []
# hooks of each plugin: (method, full hook name)
METHODS = [('session_start', 'slash.session_start'), ('test_start', 'slash.test_start'), ('session_end', 'slash.session_end'), ('after_test', 'slash.test_end')]
# how a plugin relates to one capability
REL = ['-', 'P', 'N', 'p', 'n', 'rp', 'rn']      # none, class-level, method-level (test_start), through registers_on (test_end)
REL_CLASS = ['-', 'P', 'N']
CAPS = ['x', 'y']


def make(ident, rels, inherit=False, skip=()):
    """rels: {cap: relation}"""
    ns = {}
    classname = 'Plugin' + ident

    def method(name, label):
        def f(self):
            LOG.append((ident, label))
        f.__name__ = name
        return f
    ss, ts, se, at = [method(*m) for m in METHODS]
    for cap, r in rels.items():
        if r == 'p':
            ts = provides(cap)(ts)
        elif r == 'n':
            ts = needs(cap)(ts)
    kw = {}
    for cap, r in rels.items():
        if r == 'rp':
            kw.setdefault('provides', []).append(cap)
        elif r == 'rn':
            kw.setdefault('needs', []).append(cap)
    at = registers_on('slash.test_end', **kw)(at)
    for (n, _), f in zip(METHODS, (ss, ts, se, at)):
        if n not in skip:
            ns[n] = f
    ns['get_name'] = lambda self: 'p ' + ident
    cls = type(PluginInterface)(classname, (PluginInterface,), ns)
    for cap, r in rels.items():
        if r == 'P':
            cls = provides(cap)(cls)
        elif r == 'N':
            cls = needs(cap)(cls)
    if inherit:
        cls = type(cls)(classname + 'Derived', (cls,), {})
    return cls()


def decl(rels, hook, kind):
    """capabilities of the given kind (needs/provides) this plugin declares on a hook where it has a callback"""
    out = set()
    for cap, r in rels.items():
        if kind == 'provides' and (r == 'P' or (r == 'p' and hook == 'slash.test_start') or (r == 'rp' and hook == 'slash.test_end')):
            out.add(cap)
        if kind == 'needs' and (r == 'N' or (r == 'n' and hook == 'slash.test_start') or (r == 'rn' and hook == 'slash.test_end')):
            out.add(cap)
    return out


def has(p, hook, skips):
    m = [n for n, hk in METHODS if hk == hook][0]
    return m not in skips.get(p, ())


def edges(active, rel, hook, skips):
    out = set()
    for a in active:
        for b in active:
            if has(a, hook, skips) and has(b, hook, skips) and decl(rel[a], hook, 'provides') & decl(rel[b], hook, 'needs'):
                out.add((a, b))
    return out


def cyclic(active, rel, skips):
    for _, hook in METHODS:
        es = edges(active, rel, hook, skips)
        if any(a == b for a, b in es):
            return True
        left = set(active)
        while left:
            free = [p for p in left if not any(a in left and b == p for a, b in es)]
            if not free:
                return True
            left -= set(free)
    return False


def unmet(active, rel, hook, skips):
    need, have = set(), set()
    for p in active:
        if has(p, hook, skips):
            need |= decl(rel[p], hook, 'needs')
            have |= decl(rel[p], hook, 'provides')
        have |= set(c for c, r in rel[p].items() if r == 'P')
    return need - have


_mgr = None


def fresh():
    global _mgr
    for hook in gossip.get_group('slash').get_hooks():
        hook.unregister_all()
    if _mgr is None:
        _mgr = PluginManager()
        for name in list(_mgr.get_installed_plugins()):
            _mgr.uninstall(name)
    else:
        for name in list(_mgr.get_installed_plugins()):
            try:
                _mgr.uninstall(name)
            except Exception:
                _mgr = None
                return fresh()
    return _mgr


def check_triggers(mgr, active, rel, skips, st, where, bad):
    started = False
    for _, hook in METHODS:
        del LOG[:]
        err = None
        if hook == 'slash.session_end' and not started:
            continue
        try:
            gossip.trigger(hook)
        except Exception as e:
            err = e
        miss = unmet(active, rel, hook, skips)
        if miss:
            st.count('unmet')
            if err is None:
                bad.append('%s%s: missing provider of %s not reported (called %s)' % (where, hook, sorted(miss), LOG))
            elif LOG:
                bad.append('%s%s: callbacks %s were called in spite of a missing provider' % (where, hook, LOG))
            continue
        if err is not None:
            bad.append('%s%s: %s: %s' % (where, hook, type(err).__name__, err))
            continue
        if hook == 'slash.session_start':
            started = True
        called = [p for p, l in LOG if l == hook]
        if sorted(called) != sorted(p for p in active if has(p, hook, skips)):
            bad.append('%s%s reached %s, active %s' % (where, hook, LOG, active))
            continue
        for a, b in edges(active, rel, hook, skips):
            st.count('ordered')
            if called.index(a) > called.index(b):
                bad.append('%s%s: %s was called before %s which provides what it needs (%s)' % (where, hook, b, a, called))
        st.state((where, hook, tuple(sorted(rel.items(), key=repr)).__repr__(), tuple(called)))


def run_config(rel, order, st, skips, inherit, extra):
    mgr = fresh()
    bad = []
    objs = {p: make(p, rel[p], inherit, skips.get(p, ())) for p in order}
    active = []
    for p in order:
        mgr.install(objs[p])
        err = None
        try:
            mgr.activate(objs[p])
        except Exception as e:
            err = e
        cyc = cyclic(active + [p], rel, skips)
        if cyc:
            st.count('cycles')
            if err is None:
                bad.append('activating %s closes a dependency cycle, not reported' % p)
        elif err is not None:
            bad.append('activating %s: %s: %s' % (p, type(err).__name__, err))
        if not cyc:
            active.append(p)
        if bad:
            break
    if not bad:
        got = sorted(n[2:] for n in mgr.get_active_plugins())
        if got != sorted(active):
            bad.append('active plugins %s, expected %s' % (got, active))
    if not bad:
        check_triggers(mgr, active, rel, skips, st, '', bad)
    if extra and not bad:
        # leave and come back: the order must not depend on the history
        for p in list(active):
            mgr.deactivate(objs[p])
            rest = [q for q in active if q != p]
            check_triggers(mgr, rest, rel, skips, st, 'without %s: ' % p, bad)
            mgr.activate(objs[p])
            check_triggers(mgr, active, rel, skips, st, 'after re-activating %s: ' % p, bad)
            if bad:
                break
    st.execution((rel, order, skips, inherit, LOG), sample=dict(relations=rel, order=order))
    if bad:
        st.violation('relations %s, activation order %s%s%s: %s' % (rel, order, ', inherited' if inherit else '', ', without methods %s' % skips if skips else '', '; '.join(bad[:3])),
                     dict(relations=rel, order=order, skips=skips))


# ------------------------------------------------------------------------------------- real runs
def real_run(relA, relB, order, st):
    d = world.fresh_dir('c15')
    world.write_tree(d, {'a.py': 'def test_a():\n    pass\n'})
    rel = {'A': {'x': relA}, 'B': {'x': relB}}
    for hook in gossip.get_group('slash').get_hooks():
        hook.unregister_all()
    mgr = plugins.manager
    bad = []
    with mgr.restoring_state_context():
        active = []
        for p in order:
            o = make(p, rel[p])
            mgr.install(o)
            try:
                mgr.activate(o)
                active.append(p)
            except Exception:
                pass
        del LOG[:]
        out = world.run_session(d, [d + '/a.py'])
        log = list(LOG)
    for hook in gossip.get_group('slash').get_hooks():
        hook.unregister_all()
    cyc = cyclic(active, rel, {})
    miss = any(unmet(active, rel, hk, {}) for _, hk in METHODS)
    if miss and out.exit_code == 0:
        bad.append('a missing provider went unnoticed: exit code 0')
    if not miss and out.exit_code != 0:
        bad.append('exit code %r although every need is provided' % out.exit_code)
    for _, hk in METHODS:
        called = [p for p, l in log if l == hk]
        if not miss and sorted(called) != sorted(active):
            bad.append('%s reached %s, active %s' % (hk, called, active))
        for a, b in edges(active, rel, hk, {}):
            if a in called and b in called and called.index(a) > called.index(b):
                bad.append('%s: %s before %s' % (hk, b, a))
    st.count('sessions')
    st.execution(('real', rel, order, log, out.exit_code), sample=dict(relations=rel, order=order, calls=log[:6]))
    if bad:
        st.violation('session with relations %s activated as %s: %s' % (rel, order, '; '.join(bad[:3])), dict(relations=rel, order=order, calls=log))


def configs(tier):
    """-> (family, plugins, relations per plugin, skips, inherit, extra)"""
    ids = ['A', 'B', 'C']
    for combo in itertools.product(REL, repeat=3):
        yield ids, {p: {'x': r} for p, r in zip(ids, combo)}, {}, False, True
    two = [dict(zip(CAPS, c)) for c in itertools.product(REL, repeat=2)]
    for ca in two:
        for cb in two:
            if repr(ca) <= repr(cb):
                yield ids[:2], {'A': ca, 'B': cb}, {}, True, False
    twoc = [dict(zip(CAPS, c)) for c in itertools.product(REL_CLASS, repeat=2)]
    for cs in itertools.combinations_with_replacement(range(len(twoc)), 3):
        yield ids, {p: twoc[c] for p, c in zip(ids, cs)}, {}, False, False
    # plugins which lack some of the hooks
    for combo in itertools.product(REL_CLASS + ['p', 'n'], repeat=2):
        for lack in itertools.product([(), ('session_start',), ('test_start',), ('session_end',), ('session_start', 'session_end')], repeat=2):
            yield ids[:2], {p: {'x': r} for p, r in zip(ids, combo)}, dict(zip(ids, lack)), False, False
    for ca, cb in itertools.product(twoc, repeat=2):
        for lack in itertools.product([(), ('test_start',), ('session_start', 'session_end')], repeat=2):
            if any(lack):
                yield ids[:2], {'A': ca, 'B': cb}, dict(zip(ids, lack)), False, False
    if tier == 'thorough':
        ids = ['A', 'B', 'C', 'D']
        for combo in itertools.product(REL_CLASS + ['p', 'n'], repeat=4):
            yield ids, {p: {'x': r} for p, r in zip(ids, combo)}, {}, False, False
        for cs in itertools.combinations_with_replacement(range(len(two)), 3):
            yield ids[:3], {p: two[c] for p, c in zip(ids, cs)}, {}, False, False


NPART = 64


def bound(tier):
    return 'all relations (class, method, registers_on; needs or provides) of 3 plugins to one capability and of 2 plugins to two, class-level of 3 to two, plugins lacking hooks%s; all activation orders; deactivation and re-activation of each' % (
        '; 4 plugins; 3 plugins x 2 capabilities' if tier == 'thorough' else '')


def tasks(tier):
    for k in range(NPART):
        yield ['configs', tier, k]
    for a in REL:
        yield ['real', a]


def run_task(task, st):
    if task[0] == 'real':
        for b in REL:
            for order in ('AB', 'BA'):
                real_run(task[1], b, list(order), st)
        return
    _, tier, k = task
    for n, (ids, rel, skips, inherit, extra) in enumerate(configs(tier)):
        if n % NPART != k:
            continue
        for order in itertools.permutations(ids):
            run_config(rel, list(order), st, skips, inherit, extra)
            if st.violations:
                return
