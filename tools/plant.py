"""make and confirm a planted bug: plant.py SPEC.py (defines BUGS: list of dicts id, prop, edits [(file, old, new)], demo, needs, breaks)
works in a scratch copy of /repo; keeps the bug only if the stable tests pass and the demo separates the two trees"""
import json, os, runpy, shutil, subprocess, sys
PY = "/opt/venv/bin/python"
TESTS = [t for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])] if os.path.exists("/opt/vp/BASELINE.json") else []
SCR = "/tmp/plant_repo"


def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=cwd), **k)


def main(spec, only=None):
    bugs = runpy.run_path(spec)["BUGS"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        shutil.rmtree(SCR, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", os.environ.get("SRC", "/repo"), SCR])
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(PRE + b["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds in this scenario\nexport JAX_PLATFORMS=cpu PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        r0 = sh("bash %s/demo.sh" % d, SCR)
        ok = r0.returncode == 0
        for f, o, n in b["edits"]:
            p = SCR + "/hydraxmpm/" + f
            s = open(p).read()
            if s.count(o) != b.get("count", 1):
                print(b["id"], "edit matches", s.count(o), "times"); ok = False
            open(p, "w").write(s.replace(o, n))
        r1 = sh("bash %s/demo.sh" % d, SCR)
        t = sh("%s -m pytest -q -p no:cacheprovider --continue-on-collection-errors -rA tests 2>&1 | tail -60" % PY, SCR)
        open(d + "/patch.diff", "w").write(sh("git diff", SCR).stdout)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        want = [x.split(".")[-1] for x in TESTS]
        bad = [w for w in want if not any(l.startswith("PASSED") and w in l.replace(".py", "") for l in t.stdout.splitlines())]
        if "BROKEN" not in r1.stdout:
            bad.append("demo crashed: " + r1.stderr[-200:])
        good = ok and r0.returncode == 0 and r1.returncode != 0 and not bad
        print(b["id"], "OK" if good else "REJECTED", "unchanged rc", r0.returncode, "patched rc", r1.returncode, "tests", t.stdout.strip().splitlines()[-1:], bad)
        if not good:
            print((r0.stdout + r0.stderr)[-800:], "\n--\n", (r1.stdout + r1.stderr)[-500:])
    shutil.rmtree(SCR, ignore_errors=True)


PRE = """import sys
import numpy as np
import jax, jax.numpy as jnp
import hydraxmpm as hdx


def check(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)


def close(a, b, tol=1e-3):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


"""
if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
