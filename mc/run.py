import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
from mc import env, core
pid = sys.argv[1]
mod = importlib.import_module('mc.checks.' + pid.lower())
rc = core.main(mod, sys.argv[2:])
sys.stdout.flush()
env._cleanup()
os._exit(rc)
