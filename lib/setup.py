#!/usr/bin/env python3
# nothing to build: the checks are scripts; just make sure the tools they need are there
import shutil, sys, os
missing = [t for t in ("clang++-18", "/usr/lib/llvm-18/bin/opt") if not (shutil.which(t) or os.path.exists(t))]
if missing: sys.exit("missing tools: " + ", ".join(missing))
