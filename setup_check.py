"""setup: nothing is built; checks that the tools the checks need are present"""
import os
import subprocess
import sys
import z3
assert z3.get_version() >= (4, 12), z3.get_version_string()
for cmd in (['cvc5', '--version'], ['/opt/venv/bin/python', '-c', 'import numpy, fca']):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
print('ready: z3', z3.get_version_string())
