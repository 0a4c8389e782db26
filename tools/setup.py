#!/usr/bin/env python3
"""Nothing is kept between runs; checks that the tools are there."""
import os, shutil, subprocess, sys
ok = True
for t in ("java", "clang++-18"):
    if not shutil.which(t): print("missing", t); ok = False
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(f): print("missing", f); ok = False
sys.exit(0 if ok else 1)
