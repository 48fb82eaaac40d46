"""setup_cmd: nothing to build; checks that what the checks need is here and
that the engine agrees with the interpreter it models."""
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import ints

for p in ('/usr/bin/jython', '/opt/venv/bin/python', '/repo'):
    assert os.path.exists(p), p
os.makedirs(os.path.dirname(HERE) + '/evidence', exist_ok=True)
ints.run(2000)
print('setup ok')
