#!/usr/bin/env python3
"""plant.py SPEC.py...: build a seeded change from a specification and confirm it.

SPEC.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source that
exits non-zero when the property is broken).  In a scratch copy of /repo: apply, run the demo
with and without, run the stable tests; keep it under /verif/seeded/ID if all is as required.
With --check also run the property's quick check against the copy.
"""
import sys, os, json, subprocess, shutil, runpy, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# exit 0: property holds; non-zero: broken (run with cwd = repository)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def one(spec, check):
    s = runpy.run_path(spec)
    wt = "/tmp/plant_%s" % s["ID"]
    vp = "/tmp/plantvp_%s" % s["ID"]
    for d in (wt, vp):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    shutil.copytree("/opt/vp", vp)
    try:
        for root, _, fs in os.walk(vp):
            for f in fs:
                p = os.path.join(root, f)
                try:
                    t = open(p).read()
                except Exception:
                    continue
                open(p, "w").write(t.replace("/repo", wt).replace("/opt/vp", vp))
        for f, old, new in s["EDITS"]:
            p = os.path.join(wt, "pypower", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["ID"], "edit does not match once:", f, t.count(old)); return False
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], wt).stdout
        dd = tempfile.mkdtemp()
        open(dd + "/demo.py", "w").write(s["DEMO"]); open(dd + "/demo.sh", "w").write(SH)
        a = sh(["bash", dd + "/demo.sh"], "/repo", timeout=300)
        b = sh(["bash", dd + "/demo.sh"], wt, timeout=300)
        if a.returncode != 0 or b.returncode == 0:
            print(s["ID"], "demo: clean", a.returncode, "bug", b.returncode, "\n", a.stdout[-1500:], "\n--", b.stdout[-1500:]); return False
        r = sh(["bash", vp + "/build.sh"], wt)
        if r.returncode:
            print(s["ID"], "build fails", r.stdout[-500:]); return False
        r = sh(["bash", vp + "/test.sh", vp + "/out.json"], wt)
        passed = set(json.load(open(vp + "/out.json"))["passed"])
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        miss = stable - passed
        if miss:
            print(s["ID"], "caught by existing tests:", len(miss), sorted(miss)[:3]); return False
        out = os.path.join(VERIF, "seeded", s["ID"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(s["DEMO"]); open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        print(s["ID"], "kept; demo with bug said:", (b.stdout.strip().split("\n") or [""])[-1][:150])
        if check:
            r = sh([VERIF + "/bin/check", s["PROP"]], VERIF, {"VERIF_REPO": wt})
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            print("   check %s exit %d %s" % (s["PROP"], r.returncode, v[:2]), "" if v else r.stdout[-300:])
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(vp, ignore_errors=True)
    return True


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for a in args:
        one(a, "--check" in sys.argv)
