#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: turns bug descriptions into /verif/seeded/<id>/.

FILE defines BUGS, a list of dicts: id, prop, file, edits [(old, new)], demo
(Python source; fails by an exception), needs, breaks. Each is kept only if it
applies, builds, passes the tests, and its demo tells the two trees apart."""
import json
import os
import runpy
import shutil
import subprocess
import sys

SEEDED = "/verif/seeded"
BASE = "55bc0df"
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
HEAD = '''import os
import sys
import warnings

sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")

'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def original(path, patch):
    """Does the patch change lines the original repository had?"""
    removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
    blame = sh("git", "-C", "/repo", "blame", "-s", "HEAD", "--", path).stdout.splitlines()
    mine = [l.split(") ", 1)[1] for l in blame if ") " in l and not l.startswith("^" + BASE)]
    theirs = [l.split(") ", 1)[1] for l in blame if ") " in l and l.startswith("^" + BASE)]
    return any(r in theirs and r not in mine and r.strip() for r in removed)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        out = os.path.join(SEEDED, b["id"])
        if os.path.exists(out) and not only:
            continue
        w = f"/tmp/plant-{os.getpid()}"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        try:
            edits = b.get("edits") or [(b["old"], b["new"])]
            bad = None
            for old, new in edits:
                path = b["file"]
                if isinstance(old, tuple):
                    path, old = old
                p = os.path.join(w, path)
                s = open(p, encoding="utf-8").read()
                if s.count(old) != 1:
                    bad = f"{s.count(old)} matches of {old!r}"
                    break
                open(p, "w", encoding="utf-8").write(s.replace(old, new))
            if bad:
                print("SKIP", b["id"], bad)
                continue
            patch = sh("git", "-C", w, "diff").stdout
            if not original(b["file"], patch):
                print("WARN", b["id"], "changes no original line")
            t = sh("timeout", "120", PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "randomly",
                   "--randomly-seed=0", "--randomly-dont-reorganize", "tests", cwd=w,
                   env={**os.environ, "PYTHONPATH": w, "PYTHONHASHSEED": "0"})
            if t.returncode:
                print("TESTS FAIL", b["id"], t.stdout[-300:])
                continue
            tmp = w + "-demo"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(os.path.join(tmp, "patch.diff"), "w", encoding="utf-8").write(patch)
            open(os.path.join(tmp, "demo.py"), "w", encoding="utf-8").write(
                HEAD + b["demo"].strip("\n") + "\n")
            open(os.path.join(tmp, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(tmp, "meta.json"), "w"), indent=1)
            good = sh("bash", os.path.join(tmp, "demo.sh"), cwd="/repo", timeout=300)
            fail = sh("bash", os.path.join(tmp, "demo.sh"), cwd=w, timeout=300)
            if good.returncode or not fail.returncode:
                print("DEMO", b["id"], "clean:", good.returncode, good.stderr[-300:],
                      "patched:", fail.returncode)
                shutil.rmtree(tmp)
                continue
            shutil.rmtree(out, ignore_errors=True)
            shutil.move(tmp, out)
            print("KEPT", b["id"], "|", (fail.stderr.strip().splitlines() or [""])[-1][:120])
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
