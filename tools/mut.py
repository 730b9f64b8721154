#!/usr/bin/env python3
"""mut.py PROP FILE OLD NEW [COUNT]: applies a textual change to /repo, runs the check, reverts."""
import subprocess, sys
prop, f, old, new = sys.argv[1:5]
p = "/repo/" + f
s = open(p).read()
assert old in s, "text not found"
open(p, "w").write(s.replace(old, new, int(sys.argv[5]) if len(sys.argv) > 5 else 1))
try:
    b = subprocess.run("bash /opt/vp/build.sh", shell=True, cwd="/repo", capture_output=True, text=True)
    if b.returncode: print("DOES NOT BUILD", b.stdout[-500:], b.stderr[-500:])
    else:
        for pr in prop.split(","):
            r = subprocess.run(["python3", "/verif/check.py", pr], capture_output=True, text=True)
            print(pr, "rc", r.returncode, r.stdout[-700:], r.stderr[-800:] if r.returncode not in (0, 1) else "")
finally:
    open(p, "w").write(s)
