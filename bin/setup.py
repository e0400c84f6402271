#!/usr/bin/env python3
"""Nothing has to be prepared: every check compiles its harness and the parts of /repo it needs itself. This only verifies the tools."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing: print("missing tools:", missing); sys.exit(1)
print("ok")
