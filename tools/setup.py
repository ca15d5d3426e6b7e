"""Nothing to build: check that what the checks need is there."""
import os
import sys

sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "mc"), "/repo"]
import xdis  # noqa: F401,E402
import pycompile  # noqa: E402
from harness import ALL, PYPY  # noqa: E402

for v in ALL:
    pycompile.compile_source("x = 1\n", v, "setup")
for v in PYPY:
    pycompile.compile_source("x = 1\n", v, "setup", pypy=True)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ready")
