#!/usr/bin/env python3
"""setup_cmd: compiles the Java operators of the TLA+ modules and makes sure the tools are there.
Everything that depends on /repo is built by the checks themselves."""
import os, sys, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib")
import common
for t in ("java", "javac", "g++", "gcc", "mpicxx", "mpirun"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print(common.java_classes())

# objects of the programs are cached, so that checks recompile only what changed
import builds
builds.everything()
