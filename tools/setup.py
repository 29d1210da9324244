#!/usr/bin/env python3
"""Checks that the toolchain is there. Every check builds what it needs itself."""
import os, subprocess, sys
e = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local")
e.setdefault("HOME", "/root")
sys.exit(subprocess.run(["go", "version"], env=e).returncode)
