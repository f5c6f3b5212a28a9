"""Nothing is built: checks that the simulator imports the code under test."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1')
sys.exit(subprocess.call([
    '/opt/venv/bin/python3', '-W', 'ignore', '-c',
    'from sim import env; env.up(); import node.base; '
    'print(node.base.__file__)'], env=env, cwd=VERIF))
