"""setup_cmd: nothing has to be built; make sure the interpreter the checks use is there."""
import os
import subprocess
import sys

py = '/opt/venv/bin/python'
py = py if os.path.exists(py) else sys.executable
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
sys.exit(subprocess.call([py, '-c', 'import xattr, git, magic, dateutil, packaging, pexpect'], env=env))
