"""Nothing to build: checks that the tools are there and the engine starts."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import z3  # noqa: E402

from sx import core, values  # noqa: E402,F401

os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
subprocess.run([py, "-c", "import sys; sys.path.insert(0, '/repo'); import castep_outputs"], check=True)
print("ok: z3", z3.get_version_string())
