"""Nothing to build: checks that the tools the checks need are there."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/venv/bin/python"):
    if not os.path.exists(f):
        sys.exit("missing " + f)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
os.makedirs(os.path.join(V, "out"), exist_ok=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0,'/repo'); import phenum"], check=True)
print("ready")
