"""Sanity check of the environment; the checks themselves need no build step."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
import slash
os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
print('slash imported from', slash.__file__)
