#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and builds the harness once."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
for tool in ("java", "cargo"):
    if not shutil.which(tool, path="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ.get("PATH", "")):
        sys.exit(f"{tool} not found")
ctx = core.Ctx("setup", "quick", 1)
for hooks in (True, False):
    ctx.build(hooks)
print("ready")
