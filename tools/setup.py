#!/usr/bin/env python3
"""Nothing to install: every check compiles what it needs from /repo's working tree.  Reports the tools it will use."""
import shutil, subprocess, sys
ok = True
for t in ("/usr/bin/g++", "/usr/bin/python3"):
    if not shutil.which(t):
        print("missing", t)
        ok = False
print(subprocess.run(["/usr/bin/g++", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
sys.exit(0 if ok else 1)
