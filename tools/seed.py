#!/usr/bin/env python3
"""seed.py NAME...: (re)builds seeded/<NAME> from tools/seeds.py definitions: applies the edits in a scratch copy, checks that
it builds, that the stable tests pass and that the demonstration fails with it and passes without. With --check also runs the
property's check against it in /repo."""
import json, os, shutil, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import seeds
S = "/tmp/seedrepo"

def sh(cmd, cwd=S, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def stable(base):
    env = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + S).replace("/opt/vp/test-log.json", "/tmp/seed-log.json")
    open("/tmp/seedtest.sh", "w").write(env)
    rc, o = sh("bash /tmp/seedtest.sh /tmp/seed-out.json")
    r = json.load(open("/tmp/seed-out.json"))
    passed = set(r.get("passed") or [k for k, v in r.items() if v == "pass"])
    b = json.load(open("/opt/vp/BASELINE.json"))
    want = set(b.get("stable_passing") or b.get("passed") or b.get("stable") or b.get("tests"))
    return sorted(want - passed)

if __name__ == "__main__":
    args = sys.argv[1:]
    check = "--check" in args
    only = "--only-check" in args
    names = [a for a in args if not a.startswith("-")] or [n for n, d in seeds.SEEDS.items() if not any(f.endswith(".tmpl") for f, _, _ in d["edits"])]  # changes of templates do not count
    for n in names:
        d = seeds.SEEDS[n]
        out = f"{V}/seeded/{n}"
        if not only:
            shutil.rmtree(S, ignore_errors=True)
            subprocess.check_call(["git", "clone", "-q", "/repo", S])
            os.makedirs(out, exist_ok=True)
            for f in os.listdir(out):
                os.unlink(f"{out}/{f}")
            for f, text in d["files"].items():
                open(f"{out}/{f}", "w").write(text)
            os.chmod(f"{out}/demo.sh", 0o755)
            json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
            rc0, o0 = sh(f"bash {out}/demo.sh", timeout=300)
            for f, old, new in d["edits"]:
                s = open(f"{S}/{f}").read()
                if s.count(old) < 1:
                    print(n, "TEXT NOT FOUND", f, old[:80]); sys.exit(1)
                open(f"{S}/{f}", "w").write(s.replace(old, new, 1))
            open(f"{out}/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout)
            rcb, ob = sh("bash -c '. /opt/vp/env.sh; go build ./...'")
            miss = stable(None) if rcb == 0 else ["build"]
            rc1, o1 = sh(f"bash {out}/demo.sh", timeout=300)
            ok = rc0 == 0 and rcb == 0 and not miss and rc1 != 0
            print(f"{n}: {'OK' if ok else 'BAD'} demo {rc0}->{rc1} build {rcb} missing tests {miss[:3]}", "" if ok else (o0[-1500:] + "\n---\n" + ob[-500:] + "\n---\n" + o1[-1500:]))
            if ok and "-v" in args: print(o1[-600:])
        if check or only:
            subprocess.check_call(["git", "-C", "/repo", "apply", f"{out}/patch.diff"])
            try:
                for p in [d["property"]]:
                    rc, o = sh(f"python3 {V}/check.py {p}", cwd=V)
                    print(f"   check {p}: rc {rc} {'CAUGHT' if rc == 1 else 'MISSED'}", o[-700:] if "-v" in args or rc not in (0, 1) else o[:300])
            finally:
                subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
