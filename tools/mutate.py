#!/usr/bin/env python3
"""mutate.py PROPS FILE OLD NEW [COUNT]: runs checks against a scratch copy of /repo with OLD replaced by NEW
(development aid; the registered checks always read /repo)."""
import os, shutil, subprocess, sys, tempfile
props, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    for x in ("src", "vendor", "inputs"):
        shutil.copytree("/repo/" + x, d + "/" + x)
    p = os.path.join(d, file)
    s = open(p).read()
    if old not in s:
        print("PATTERN NOT FOUND"); sys.exit(9)
    open(p, "w").write(s.replace(old, new, 1))
    env = dict(os.environ, HCL_REPO=d)
    for q in props.split(","):
        r = subprocess.run([sys.executable, "/verif/check.py", q], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open("/tmp/mutlast.txt","w").write(r.stdout);print(q, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "missed", "|", r.stdout.strip().splitlines()[0][:160] if r.stdout.strip() else "")
finally:
    shutil.rmtree(d)
