"""setup: nothing to build; confirms that the interpreters the checks need are present."""
import os
import subprocess
import sys
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence', 'replays'), exist_ok=True)
ok = True
for exe, code in ((os.path.exists('/opt/veriftools/pyvenv/bin/python3') and '/opt/veriftools/pyvenv/bin/python3' or 'python3-vt', 'import z3'),
                  ('/opt/venv/bin/python', 'import sympy, numpy, pandas')):
    r = subprocess.run([exe, '-c', code])
    ok = ok and r.returncode == 0
sys.exit(0 if ok else 1)
