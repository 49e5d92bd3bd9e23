"setup: nothing to build; verifies the interpreter, z3 and gpkit can be loaded"
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
        "import z3; sys.path.insert(0, %r); from symex import runner; runner.setup_repo();"
        "print('ok', z3.get_version_string())" % ROOT)
env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-W", "ignore", "-B", "-c", code], env=env))
