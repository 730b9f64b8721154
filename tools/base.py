#!/usr/bin/env python3
"""base.py: builds /repo and runs the stable tests; prints what of the baseline fails."""
import json, subprocess
subprocess.run("bash /opt/vp/build.sh >/tmp/b.log 2>&1 || tail -20 /tmp/b.log; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1", shell=True)
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/t.json'))
bad = sorted(set(b['stable']) - set(t['passed']))
print("stable", len(b['stable']), "missing", bad[:20])
