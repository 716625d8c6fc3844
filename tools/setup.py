"""Setup: nothing to install; confirm that the tools the checks need are there."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import harness

t = tempfile.mkdtemp()
try:
    harness.compile_overrides(t)
finally:
    shutil.rmtree(t)
for f in (harness.PY, harness.TLAJAR, harness.TLACM):
    assert os.path.exists(f), f
print("ok")
