#!/usr/bin/env python3
"""Nothing has to be installed: every check builds its monitors from /repo's working tree. This only verifies the tools."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "python3") if not shutil.which(t)]
print("missing tools: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
