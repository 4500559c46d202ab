#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that every specification parses."""
import os, subprocess, sys, glob, tempfile, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for t in ("java", "clang++-18", "ninja", "git"):
    if not shutil.which(t):
        sys.exit(f"missing tool: {t}")
p = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", *[os.path.basename(f) for f in sorted(glob.glob(os.path.join(R, "spec", "*.tla")))]],
                   cwd=os.path.join(R, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode != 0 or "*** Errors" in p.stdout:
    print(p.stdout[-3000:])
    sys.exit("a specification does not parse")
print("setup ok")
