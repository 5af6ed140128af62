#!/usr/bin/env python3
"""Nothing to install: verify that the tools the checks use are present."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "ready")
sys.exit(1 if missing else 0)
