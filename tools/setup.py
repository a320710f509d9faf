#!/usr/bin/env python3
"""Setup: only checks that what the checks need is there; every check builds from /repo itself."""
import shutil, sys
missing = [t for t in ("g++", "ar", "python3") if not shutil.which(t)]
if missing: print("missing:", missing)
sys.exit(1 if missing else 0)
