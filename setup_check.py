#!/usr/bin/env python3
"""setup_cmd: nothing to build; verifies that the interpreters and jars the checks use are present."""
import os
import subprocess
import sys

ok = all(os.path.exists(p) for p in ("/opt/venv/bin/python", "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"))
ok = ok and subprocess.call(["java", "-version"], stderr=subprocess.DEVNULL) == 0
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
sys.exit(0 if ok else 1)
