#!/usr/bin/env python3
"""setup: nothing is prebuilt (checks build from /repo's working tree); verify the tools are there."""
import shutil, sys
missing = [t for t in ("gcc", "cmake", "ninja", "bison", "flex") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("ok")
