#!/usr/bin/env python3
"""setup_cmd: nothing has to be built in advance (every check builds from /repo's current tree); verifies the tools."""
import shutil, sys
missing = [t for t in ("g++",) if not shutil.which(t)]
try:
    import numpy, scipy.spatial  # noqa: F401
except ImportError as e: missing.append(str(e))
if missing: print("missing:", missing); sys.exit(1)
print("setup ok")
