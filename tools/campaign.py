#!/usr/bin/env python3
"""campaign.py OUT SEED COUNT [FILE-REGEXP]: a random choice of small changes (tools/mutate) to the Go code, each in a copy of the
repository, against the checks of the properties the file is for, until one reports it. Only a way to look for gaps of the checks."""
import os, random, re, shutil, subprocess, sys, time
out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4] if len(sys.argv) > 4 else "."
V, R = f"/tmp/mv{seed}", f"/tmp/mr{seed}"
for d, s in ((V, "/verif"), (R, "/repo")):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", s, d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
p = V + "/lib/common.py"; s = open(p).read(); open(p, "w").write(s.replace('REPO = "/repo"', f'REPO = "{R}"').replace("/repo/", R + "/"))
for f in ("/mc/enum/enum.go", "/mc/gen/gen.go"):
    s = open(V + f).read(); open(V + f, "w").write(s.replace('"/repo/"', f'"{R}/"'))
subprocess.check_call("cd /verif/tools/mutate && . /verif/tools/env.sh && go build -o /tmp/mutate .", shell=True)
WHICH = [
    (r"pkg/asyncapi/(v\d/)?schema", "P20 P19 P18 P17 P16 P24 P21 P23 P26"),
    (r"pkg/asyncapi/v\d/message", "P20 P22 P29 P16 P24 P23 P21 P30 P26 P08"),
    (r"pkg/asyncapi/v\d/operation", "P30 P22 P20 P29 P24 P23 P26 P08"),
    (r"pkg/asyncapi/v\d/(spec|comp|chan|param|corr|tag|utils|ext)", "P20 P22 P25 P18 P30 P29 P24 P23 P26"),
    (r"pkg/asyncapi/(parser|versions|ref)", "P26 P20 P29 P23"),
    (r"pkg/codegen/", "P30 P18 P19 P16 P29 P25 P28 P17 P20 P24 P23"),
    (r"pkg/utils", "P28 P18 P20 P16 P25 P24 P22 P23 P26"),
    (r"pkg/extensions/brokers/natsjet", "P11 P12"), (r"pkg/extensions/brokers/nats", "P13"), (r"pkg/extensions/brokers/kafka", "P14 P15"),
    (r"pkg/extensions/vers", "P03 P04"), (r"pkg/extensions/broker", "P01 P02 P09 P06"), (r"pkg/extensions/(logg|middlewares|error)", "P27 P05"), (r"pkg/extensions", "P06 P10 P05 P27"),
]
files = subprocess.check_output("find pkg -name '*.go' -not -name '*_test.go' -not -path 'pkg/utils/test/*'", shell=True, cwd=R, text=True).split()
ms = []
for f in sorted(files):
    if re.search(r"binding|server|info\.go|contact|security|license|external|example|pkg/utils/must", f) or not re.search(only, f): continue
    w = next((w for r, w in WHICH if re.search(r, f)), None)
    if not w: continue
    for l in subprocess.check_output(["/tmp/mutate", f], cwd=R, text=True).splitlines():
        i, line, what = l.split("\t", 2)
        ms.append((f, int(i), line, what, w))
random.Random(seed).shuffle(ms)
log = open(out, "a")
def say(*a): print(*a, file=log, flush=True)
say("#", len(ms), "changes")
done = 0
env = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
for f, i, line, what, w in ms:
    if done >= count: break
    orig = open(f"{R}/{f}").read()
    new = subprocess.check_output(["/tmp/mutate", f, str(i)], cwd=R, text=True)
    open(f"{R}/{f}", "w").write(new)
    try:
        if subprocess.run("go build ./pkg/... ./cmd/asyncapi-codegen", shell=True, cwd=R, env=env, capture_output=True).returncode: continue
        done += 1; t0 = time.time(); res = "MISSED"; tried = []
        for pr in w.split():
            r = subprocess.run(["python3", V + "/check.py", pr], cwd=V, capture_output=True, text=True)
            tried.append(f"{pr}:{r.returncode}")
            if r.returncode == 1: res = "caught " + pr; break
        say(f"{res}\t{f}:{line}\t#{i}\t{what[:150]}\t{' '.join(tried) if res == 'MISSED' else ''} {time.time()-t0:.0f}s")
    finally:
        open(f"{R}/{f}", "w").write(orig)
say("# end")
