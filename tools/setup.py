"""Nothing to build: verify that TLC, the Python environment and the package are usable."""
import subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import sys; sys.path.insert(0, %r); import tmdsimpy, numpy; print("ok")' % vlib.REPO],
                   env=vlib.env_for_python())
r2 = subprocess.run(['sh', '-c', 'command -v tlc && command -v java'])
sys.exit(0 if r.returncode == 0 and r2.returncode == 0 else 1)
