"""Plant a bug: validate a candidate and store it under /verif/seeded/<id>/.

usage: plant.py SPEC.py      (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source))
       plant.py --verify ID  (re-validate a stored one)
       plant.py --catch [ID...] [--prop P]  (run the property's quick check against each stored one)
The change is applied to /repo only while this runs, and undone afterwards."""
import json
import os
import runpy
import subprocess
import sys

V, R = "/verif", os.environ.get("PLANT_REPO", "/repo")  # PLANT_REPO: a copy to plant in, instead of /repo


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    sh(f"git -C {R} checkout -- .")


def demo(d):
    return sh(f"bash {d}/demo.sh", cwd=R, timeout=300)


def tests_ok():
    if R == "/repo":
        sh("bash /opt/vp/test.sh /tmp/plant-o.json")
    else:
        sh("sed 's#cd /repo#cd " + R + "#' /opt/vp/test.sh > /tmp/plant-test.sh; PYTHONPATH=" + R + " bash /tmp/plant-test.sh /tmp/plant-o.json")
    got = json.load(open("/tmp/plant-o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("passed") or base.get("stable") or base)
    miss = sorted(want - set(got["passed"]))
    return miss


def verify(i, run_tests=True):
    d = f"{V}/seeded/{i}"
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo not clean"
    r = demo(d)
    if r.returncode != 0:
        return f"demo fails on the unchanged tree: {r.stdout[-1500:]}{r.stderr[-1500:]}"
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode:
        return "patch does not apply: " + a.stderr
    try:
        r = demo(d)
        if r.returncode == 0:
            return "demo passes with the change"
        if run_tests:
            miss = tests_ok()
            if miss:
                return f"tests fail: {miss[:5]}"
    finally:
        clean()
    return None


def catch(i, seed=1):
    d = f"{V}/seeded/{i}"
    p = json.load(open(f"{d}/meta.json"))["property"]
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode:
        return "patch does not apply"
    try:
        r = sh(f"/opt/venv/bin/python {V}/run.py {p}", env={**os.environ, "VERIF_SEED": str(seed), "VERIF_TIER": "quick", "VERIF_REPO": R})
        last = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        err = [l for l in r.stdout.splitlines() if l.strip()]
        return f"{p} rc={r.returncode} " + (last[-1] + " :: " + (err[-2] if len(err) > 1 else "")[:160] if last else "MISSED " + r.stdout[-300:])
    finally:
        clean()


def main():
    a = sys.argv[1:]
    if a[0] == "--verify":
        for i in a[1:] or sorted(os.listdir(f"{V}/seeded")):
            print(i, verify(i, run_tests="--no-tests" not in a) or "ok", flush=True)
        return
    if a[0] == "--catch":
        for i in a[1:] or sorted(os.listdir(f"{V}/seeded")):
            print(i, catch(i), flush=True)
        return
    for spec in a:
        s = runpy.run_path(spec)
        i = s["ID"]
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        clean()
        bad = None
        for f, old, new in s["EDITS"]:
            p = f"{R}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                bad = f"{f}: {t.count(old)} matches for {old[:60]!r}"
                break
            first = sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.strip()
            orig = sh(f"git -C {R} show {first}:{f}").stdout
            gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
            if not gone or any(l not in orig.splitlines() for l in gone):
                bad = f"{f}: not (only) original lines changed: {gone[:3]}"
                break
            open(p, "w").write(t.replace(old, new))
        if not bad:
            open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        clean()
        if bad:
            print(i, bad)
            continue
        open(f"{d}/demo.py", "w").write(s["DEMO"].lstrip())
        if "tiny" in s["DEMO"]:
            open(f"{d}/tiny.py", "w").write(open(f"{V}/tools/tiny.py").read())
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$d/demo.py"\n')
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
        msg = verify(i)
        print(i, "REJECTED " + msg if msg else "ok", "|", catch(i) if not msg else "", flush=True)


main()
