#!/usr/bin/env python3
"""matrix.py [BUG...]: runs every check (quick tier) against every planted bug in
a scratch copy of /repo and records in meta.json which ones report it.
--own runs only the check of the bug's own property."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
ALL = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]


def check(pid, repo, work):
    env = {**os.environ, "VERIF_REPO": repo, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
           "VERIF_TIER": "quick", "PYTHONHASHSEED": "0"}
    r = subprocess.run([PY, os.path.join(work, "check.py"), pid, "--workers", "4"], env=env,
                       capture_output=True, text=True)
    msg = next((l for l in r.stdout.splitlines() if l.startswith("property ")), "")
    return pid, r.returncode, msg


def main():
    own = "--own" in sys.argv
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    for name in sorted(os.listdir(SEEDED)):
        if only and name not in only:
            continue
        mpath = os.path.join(SEEDED, name, "meta.json")
        meta = json.load(open(mpath))
        if not only and not own and "caught_by" in meta and "--all" not in sys.argv:
            continue
        w = f"/tmp/matrix-{os.getpid()}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        try:
            shutil.copytree("/repo", w + "/repo", symlinks=True)
            shutil.copytree(VERIF, w + "/verif",
                            ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
            subprocess.run(["git", "-C", w + "/repo", "apply",
                            os.path.join(SEEDED, name, "patch.diff")], check=True)
            todo = [meta["property"]] if own else ALL
            with ThreadPoolExecutor(3) as ex:
                res = list(ex.map(lambda p: check(p, w + "/repo", w + "/verif"), todo))
            caught = [p for p, rc, _ in res if rc == 1]
            odd = [(p, rc) for p, rc, _ in res if rc not in (0, 1)]
            mine = next(m for p, _, m in res if p == meta["property"])
            print(name, meta["property"], "CAUGHT" if meta["property"] in caught else "** MISSED",
                  caught, odd, "|", mine[:150], flush=True)
            if not own:
                meta["caught_by"] = caught
                with open(mpath, "w") as f:
                    json.dump(meta, f, indent=1)
                    f.write("\n")
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
