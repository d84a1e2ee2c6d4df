"""Instrumented suites used by the lifecycle checks."""
from .lifecycle import Suite

HEAD = '''
import slash
from mc.world import P, EV
from mc.suites_rt import reg
'''

A = HEAD + '''
@slash.fixture
def ft():
    P('ft.setup')
    reg('ft.c')
    yield 1
    P('ft.teardown')

@slash.fixture(scope='module')
def fm():
    P('fm.setup')
    yield 1
    P('fm.teardown')

@slash.fixture(scope='session')
def fs():
    P('fs.setup')
    yield 1
    P('fs.teardown')

def test_a1(ft, fm, fs):
    P('a1.body')
    reg('a1.c')
    reg('a1.crit', critical=True)
    reg('a1.succ', success_only=True)
    reg('a1.m', scope='module')
    reg('a1.ms', scope='module', critical=True)
    reg('a1.s', scope='session', critical=True)
    P('a1.tail')
'''

CLS = HEAD + '''
class TestC(slash.Test):
    def before(self):
        P('c.before')
        reg('c.before.c')
    def after(self):
        P('c.after')
    def test_c1(self):
        P('c1.body')
        reg('c1.c')
        P('c1.tail')
'''

B = HEAD + '''
def test_b1():
    P('b1.body')
    reg('b1.c')
    reg('b1.m', scope='module')
    P('b1.tail')
'''

A2 = HEAD + '''
@slash.fixture(scope='module')
def fm():
    P('fm.setup')
    yield 1
    P('fm.teardown')

def test_a1(fm):
    P('a1.body')
    reg('a1.c')
    reg('a1.m', scope='module')
    P('a1.tail')

def test_a2():
    P('a2.body')
    reg('a2.crit', critical=True)
'''

AV = HEAD + '''
@slash.requires(lambda: False)
def test_v0():
    P('v0.body')

@slash.parametrize('x', [1, 2])
@slash.exclude('x', [2])
def test_v1(x):
    P('v1.body')

@slash.skipped('just')
def test_v2():
    P('v2.body')
'''

SG = HEAD + """
@slash.fixture
def ft(this):
    P('ft.setup')
    @this.add_cleanup
    def c1():
        EV('cleanup', 'ftc1')
        P('cleanup:ftc1')
    @this.add_cleanup
    def c2():
        EV('cleanup', 'ftc2')
        P('cleanup:ftc2')
    P('ft.setup2')
    return 1

@slash.fixture(scope='module')
def fm(this):
    @this.add_cleanup
    def c1():
        EV('cleanup', 'fmc1.m')
        P('cleanup:fmc1.m')
    @this.add_cleanup
    def c2():
        EV('cleanup', 'fmc2.m')
        P('cleanup:fmc2.m')
    reg('fmreg.m')
    reg('fmreg2.m', critical=True)

def test_g1(ft, fm):
    P('g1.body')
"""

SUITES = {}


def _add(s):
    SUITES[s.name] = s


_add(Suite('one', {'a.py': A}))
_add(Suite('cls', {'c.py': CLS}))
_add(Suite('two', {'a.py': A2, 'b.py': B}))
_add(Suite('three', {'a.py': A, 'b.py': CLS, 'c.py': B}))
_add(Suite('avoid', {'a.py': AV, 'b.py': B}))
_add(Suite('avoid2', {'b.py': B, 'c.py': AV}))
_add(Suite('mini', {'b.py': B}))


def _reg_session(rec):
    from .suites_rt import reg
    reg('g1.s')
    reg('g2.s', critical=True)
    reg('g3.s')


def _reg_test(rec):
    from .suites_rt import reg
    reg('h1')
    reg('h2', critical=True)


_add(Suite('sg', {'a.py': SG, 'b.py': B}, hook_body={'session_start': _reg_session, 'test_start': _reg_test, 'before_test_cleanups': _reg_test}))
