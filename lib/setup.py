#!/usr/bin/env python3
"""Checks that the tools the checks need are present."""
import shutil, subprocess, sys
missing = [t for t in ("cbmc", "goto-cc", "gcc") if shutil.which(t) is None]
if missing:
    print("missing tools: " + ", ".join(missing))
    sys.exit(1)
print(subprocess.run(["cbmc", "--version"], capture_output=True, text=True).stdout.strip())
