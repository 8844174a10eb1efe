#!/usr/bin/env python3
"""nothing is kept between runs: only checks that the tools the checks need are installed"""
import shutil, sys
missing = [t for t in ("verus", "cargo", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
print("ok")
