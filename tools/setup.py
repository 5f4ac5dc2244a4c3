#!/usr/bin/env python3
"""setup_cmd: nothing is kept between runs (each check builds what it needs from
/repo's working tree), so this only checks that the tools are there."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
missing = [t for t in ("clang++", "llvm-symbolizer", "python3") if not shutil.which(t)]
if not os.path.exists("/usr/include/eigen3/Eigen/Dense"):
    missing.append("eigen3")
os.makedirs(os.path.join(HERE, "..", "evidence"), exist_ok=True)
print("missing: %s" % missing if missing else "ready")
sys.exit(1 if missing else 0)
