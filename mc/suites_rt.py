"""Run-time helpers imported by generated test files."""
import slash
from slash.ctx import context
from .world import P, EV
from . import world

PROG = {}
_phase = []


def reg(name, body=None, **kw):
    def cb():
        EV('cleanup', name)
        if body is not None:
            body()
        P('cleanup:' + name)
    cb.__qualname__ = 'cleanup_' + name
    EV('reg', name, kw.get('scope') or 'test', bool(kw.get('critical')), bool(kw.get('success_only')))
    slash.add_cleanup(cb, **kw)


def site(where, scope_now=None):
    """Registers the cleanups the current program wants at this place."""
    for r in PROG.get(where, ()):
        _reg(r, where, implicit_scope(where))


def implicit_scope(where):
    return 'session-global' if where.startswith('import:') else {'session_start': 'session-global', 'fm': 'module', 'fs': 'session'}.get(where, 'test')


def _reg(r, where, implicit, owner=None):
    # owner: address of the test on whose behalf the registration is made (nested ones inherit their parent's)
    name, scope, flag, nested = r
    eff = scope or implicit
    t = context.test
    if owner is None:
        owner = t.__slash__.address if t is not None else None

    def cb():
        EV('cleanup', name)
        for x in nested:
            _reg(x, 'cleanup', eff, owner)
        P('cleanup:' + name)
    kw = {}
    if scope:
        kw['scope'] = scope
    if flag:
        kw[flag] = True
    slash.add_cleanup(cb, **kw)
    EV('reg', name, eff, flag == 'critical', flag == 'success_only', where, owner)


# ---- outcome vectors (C08 and others): OUT maps a test name to the letter of what it does
OUT = {}


def req(name):
    return OUT.get(name)


def _boom(fatal=False):
    from .world import FaultError
    e = FaultError('late error')
    if fatal:
        slash.exception_handling.mark_exception_fatal(e)
    raise e


def out(name):
    k = OUT[name]
    EV('body', name)
    if k == 'A':
        assert False, 'failure ' + name
    elif k == 'E':
        raise world.FaultError('error ' + name)
    elif k == 'e':
        slash.add_error('added error ' + name)
    elif k == 'f':
        slash.add_failure('added failure ' + name)
    elif k == 'S':
        slash.skip_test('skip ' + name)
    elif k == 's':
        context.result.add_skip('added skip ' + name)
    elif k == 'F':
        raise slash.exception_handling.mark_exception_fatal(world.FaultError('fatal ' + name))
    elif k == 'G':
        slash.add_failure('added fatal ' + name).mark_fatal()
    elif k == 'c':
        slash.add_cleanup(_boom)
    elif k == 'm':
        slash.add_cleanup(_boom, scope='module')
    elif k == 'M':
        slash.add_cleanup(_boom, scope='module', args=(True,))
    elif k == 'z':
        slash.add_cleanup(_boom, scope='session')
    elif k == 'K':
        raise KeyboardInterrupt()


def late(rec):
    t = context.test
    name = t.__slash__.address.split('test_')[-1].split('(')[0] if t is not None else None
    if OUT.get(name) == 't':
        raise world.FaultError('late error')
