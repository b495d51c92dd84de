#!/usr/bin/env python3
"""seed.py ID [--checks C01,C02|all] [--skip-tests]: confirms a planted bug (applies to /repo, build, tests, demo, checks) and undoes it."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    i = sys.argv[1]
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    ck = sys.argv[sys.argv.index("--checks") + 1] if "--checks" in sys.argv else meta["property"]
    if ck == "all":
        ck = ",".join(c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"])
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo dirty"
    if "--skip-tests" not in sys.argv:
        b = sh("bash /opt/vp/build.sh")
        r = sh(f"bash {d}/demo.sh", cwd=R)
        print("demo on clean tree:", r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else "")
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode:
        print("patch does not apply", a.stderr)
        return
    try:
        if "--skip-tests" not in sys.argv:
            o = tempfile.mktemp(suffix=".json")
            t = sh(f"bash /opt/vp/test.sh {o}")
            res = json.load(open(o))
            base = json.load(open("/opt/vp/BASELINE.json"))
            base = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
            miss = [x for x in base if x not in res["passed"]]
            print("tests:", len(res["passed"]), "passed; stable tests lost:", miss[:5], "" if res["passed"] else t.stderr[-1500:])
            r = sh(f"bash {d}/demo.sh", cwd=R)
            print("demo with patch:", r.returncode, (r.stdout + r.stderr)[-300:])
        for c in ck.split(","):
            r = sh(f"python3 check.py {c}", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(c, "exit", r.returncode, v, "" if v else r.stdout.strip().splitlines()[-1:])
            if v and c == meta["property"]:
                print("   ", "\n    ".join(x[:200] for x in r.stdout.splitlines()[-5:-1]))
    finally:
        sh(f"git -C {R} checkout -- .")


main()
