"""Check that the tools are there.  Nothing needs to be built beforehand: every check translates and builds the current tree."""
import os
import sys
bad = [t for t in ("/usr/local/bin/verus", "/usr/bin/clang++-18", "/usr/bin/g++", "/opt/vp/venv/bin/python") if not os.path.exists(t)]
if bad:
    sys.exit("missing: " + " ".join(bad))
print("ok")
