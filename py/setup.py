"""Checks that the tools the checks need are there. Everything is built by the checks themselves."""
import shutil
import sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("tools present")
