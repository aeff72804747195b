"""setup_cmd: nothing to install; checks that the tools are there and that /repo builds."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import build          # noqa: E402

d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    print("built", os.path.relpath(build.build(d), d))
finally:
    shutil.rmtree(d, ignore_errors=True)
