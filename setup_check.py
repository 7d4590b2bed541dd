#!/usr/bin/env python3
"""Setup: nothing to compile; makes sure the tools the checks run are there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("CLUBS_PYTHON", "/opt/pypyvenv/bin/python")
REPO = os.environ.get("CLUBS_REPO", "/repo")

os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
env = dict(os.environ, PYTHONPATH=f"{REPO}:{HERE}", PYTHONDONTWRITEBYTECODE="1")
code = "import clubs, flask, flask_socketio, gevent; print(clubs.__file__)"
found = subprocess.run([PYTHON, "-c", code], env=env, stdout=subprocess.PIPE, check=True)
if not found.stdout.decode().startswith(REPO):
    sys.exit(f"clubs is imported from {found.stdout.decode()}")
subprocess.run(["node", "--version"], check=True, stdout=subprocess.DEVNULL)
