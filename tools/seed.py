#!/usr/bin/env python3
"""seed.py try ID [check ids...]: applies /verif/seeded/ID/patch.diff to /repo, builds, runs the
tests, the demonstration and the check of its property, and undoes it.
seed.py make SPECFILE: makes seeded/<id> directories from a Python file with SEEDS."""
import sys, os, json, subprocess, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean():
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(), "repo not clean"
def make(spec, only=None):
    for s in runpy.run_path(spec)["SEEDS"]:
        if only and s["id"] not in only: continue
        d = os.path.join(V, "seeded", s["id"])
        if os.path.exists(os.path.join(d, "patch.diff")) and not only: continue
        clean()
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
        finally:
            sh("git -C /repo checkout -- .")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if "demo" in s:
            open(os.path.join(d, "demo.kos"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(s.get("sh") or
                '#!/bin/bash\n# The program checks itself with assertions.\nD=$(cd "$(dirname "$0")" && pwd)\ntimeout 120 ./Out/vp/interpreter/kos "$D/demo.kos"\n')
        else:
            open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
        for n, t in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        print("made", s["id"])
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed.json")
    o = json.load(open("/tmp/seed.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    b = base.get("stable") or base.get("passed") or base
    b = set(b if isinstance(b, list) else b.keys())
    return sorted(b - set(o["passed"]))
def try_(sid, checks, fast):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    clean()
    res = {}
    scr = "/tmp/seeddemo"
    shutil.rmtree(scr, ignore_errors=True); shutil.copytree(d, scr)
    try:
        p = sh("git -C /repo apply %s/patch.diff" % d); assert p.returncode == 0, p.stdout
        p = sh("bash /opt/vp/build.sh"); res["build"] = p.returncode
        if p.returncode: print(p.stdout.decode()[-2000:])
        if not fast: res["failed_tests"] = tests()
        p = sh("bash %s/demo.sh" % scr, cwd=R); res["demo_bug"] = p.returncode
        if "-v" in sys.argv: print(p.stdout.decode()[-1500:])
        for c in checks or [meta["property"]]:
            p = subprocess.run(["python3", "checks/%s.py" % c.lower()], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            res["check_" + c] = (p.returncode, p.stdout.decode().strip().split("\n")[-1])
            if "-v" in sys.argv: print(p.stderr.decode()[:1500])
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    p = sh("bash %s/demo.sh" % scr, cwd=R); res["demo_clean"] = p.returncode
    if p.returncode: print(p.stdout.decode()[-1500:])
    ok = res["build"] == 0 and not res.get("failed_tests") and res["demo_bug"] != 0 and res["demo_clean"] == 0
    caught = any(v[0] == 1 for k, v in res.items() if k.startswith("check_"))
    print(sid, "VALID" if ok else "INVALID", "CAUGHT" if caught else "MISSED", res, flush=True)
if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
else:
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    ids = args[0].split(",") if args else []
    for i in ids: try_(i, args[1:], "--fast" in sys.argv)
