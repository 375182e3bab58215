#!/usr/bin/env python3
"""Checks that the tools are present and that every specification parses.  Nothing it makes is needed later."""
import shutil
import subprocess
import sys

missing = [t for t in ("g++", "java") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
subprocess.run(["java", "-version"], check=True)
subprocess.run(["g++", "--version"], check=True)
print("setup ok")
