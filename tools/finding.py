#!/usr/bin/env python3
"""finding.py fixed|known PROPERTY KEY TEXT [commit-grep]   appends an entry to known_findings.json (used by hand, never by a check)"""
import json, subprocess, sys
st, p, key, what = sys.argv[1:5]
f = "/verif/known_findings.json"
d = json.load(open(f))
e = {"property": p, "status": st, "key": key}
if st == "fixed":
    c = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-i", "--grep", sys.argv[5]], capture_output=True, text=True).stdout.split()
    assert len(c) == 1, c
    e["commit"] = c[0]
    what = "fixed: property=%s %s %s" % (p, c[0], what)
e["what"] = what
d["findings"].append(e)
json.dump(d, open(f, "w"), indent=1)
