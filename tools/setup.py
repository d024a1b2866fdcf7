#!/usr/bin/env python3
"""Build every driver against /repo once, and parse every specification."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "work", "target"))
env.pop("RUSTFLAGS", None)
os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
for profile in ("dev", "unchecked"):
    rc = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--bins", "--profile", profile],
                        cwd=os.path.join(ROOT, "harness"), env=env).returncode
    if rc:
        sys.exit(rc)
