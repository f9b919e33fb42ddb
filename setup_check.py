"""setup_cmd: nothing to build; checks the tools the checks use are there"""
import subprocess, sys
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy'], check=True)
import z3, numpy
print('ok')
