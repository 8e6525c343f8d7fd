"""Self-test of the verifier back end; nothing is built outside this folder."""
import subprocess, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
r = subprocess.run([sys.executable, os.path.join(HERE, 'engine', 'selftest_ir.py')], cwd=HERE, env=dict(os.environ, PYTHONPATH=HERE))
sys.exit(r.returncode)
