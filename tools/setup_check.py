"""setup_cmd: nothing has to be built; verifies that the toolchain the checks use is there"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vlib import core  # noqa: E402

for path in core.TLC_JAR.split(':'):
    if not os.path.exists(path):
        sys.exit('missing ' + path)
if subprocess.run(['java', '-version'], capture_output=True, check=False).returncode != 0:
    sys.exit('java is missing')
core.import_repo()
print('setup ok')
