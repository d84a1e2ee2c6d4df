"""Process environment for every check: imports slash from the working tree of /repo, keeps all
files the code under test may touch inside one scratch directory that is removed on exit."""
import os, sys, shutil, tempfile, atexit, warnings, random

REPO = os.environ.get('MC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for _k in ('SLASH_SETTINGS', 'SLASH_USER_SETTINGS', 'SLASH_PYTHON_COVERAGE'):
    os.environ.pop(_k, None)

_base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
SCRATCH = tempfile.mkdtemp(prefix='mcslash-', dir=_base)
_owner = os.getpid()

def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_cleanup)

os.environ['HOME'] = os.path.join(SCRATCH, 'home')
os.environ['TMPDIR'] = os.path.join(SCRATCH, 'tmp')
os.mkdir(os.environ['HOME'])
os.mkdir(os.environ['TMPDIR'])
tempfile.tempdir = os.environ['TMPDIR']
# nothing in a session may depend on where it was started from
CWD = os.path.join(SCRATCH, 'cwd')
os.mkdir(CWD)
os.chdir(CWD)

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
warnings.simplefilter('ignore')
random.seed(SEED)

import inspect
_FrameInfo = inspect.FrameInfo


def _fast_stack(context=1):
    # speed only: same frames, function names and line numbers as inspect.stack(), without reading the sources
    f = sys._getframe(1)
    out = []
    while f is not None:
        out.append(_FrameInfo(f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
        f = f.f_back
    return out
inspect.stack = _fast_stack

import socket
socket.getfqdn = lambda name='': 'localhost.localdomain'

import slash
import slash.frontend.slash_run
assert os.path.realpath(slash.__file__).startswith(os.path.realpath(REPO) + os.sep), slash.__file__
import logbook
import gossip
slash.config.root.run.user_customization_file_path = os.path.join(SCRATCH, 'no-such-slashrc')
