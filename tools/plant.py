#!/usr/bin/env python3
"""plant.py [ids]: tries the planted bugs of /verif/seeded on /repo's working tree (which it restores):
demonstration and checks without and with the patch, build, tests. For development; no check uses it."""
import json, os, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, cwd=REPO, timeout=900, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    return r.returncode, r.stdout


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None


def one(i, clean):
    d = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = {}
    try:
        if clean:
            rc, o = sh("bash /opt/vp/build.sh && bash %s/demo.sh" % d)
            out["demo clean"] = rc
            if rc:
                print(o[-1500:])
        rc, o = sh("git apply %s/patch.diff" % d)
        assert rc == 0, o
        rc, o = sh("bash /opt/vp/build.sh")
        out["build"] = rc
        rc, o = sh("bash %s/demo.sh" % d)
        out["demo"] = rc
        print("   " + "\n   ".join([l for l in o.strip().split("\n") if "panicked" in l or "left" in l or "answer" in l or ": " in l][-4:])[-700:])
        with tempfile.NamedTemporaryFile(suffix=".json") as f:
            rc, o = sh("bash /opt/vp/test.sh " + f.name)
            t = json.load(open(f.name))
            out["tests"] = {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in t.items()}
        rc, o = sh("python3 %s/tools/check.py %s quick" % (VERIF, prop))
        out["check"] = rc
        print("   " + o.strip().split("\n")[0][:300])
    finally:
        sh("git checkout -q -- .")
    print(i, json.dumps(out), flush=True)


ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
for i in ids:
    one(i, "--clean" in sys.argv)
sh("bash /opt/vp/build.sh")
