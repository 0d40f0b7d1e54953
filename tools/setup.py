"""Nothing is built: checks that the tools the checks use are there."""
import os, shutil, subprocess, sys
for t in ("z3", "z3-new", "cvc5"):
    if not shutil.which(t):
        sys.exit("%s is missing" % t)
import z3
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", "import numpy"]))
