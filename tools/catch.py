#!/usr/bin/env python3
"""catch.py [ID ...]: runs the check of each planted bug's property on a scratch clone with the bug and notes in tools/caught.json what the check said."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "tools", "caught.json")
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))


def one(i):
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="catch-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        subprocess.check_call(["git", "-C", w + "/r", "apply", os.path.join(d, "patch.diff")])
        env = dict(os.environ, VERIF_REPO=w + "/r", VERIF_VERBOSE="1")
        p = subprocess.run(["./run.sh", prop], cwd=ROOT, env=env, capture_output=True, text=True)
        mech = [x.strip()[2:].split(" ")[0].rstrip(":") for x in p.stdout.splitlines() if x.startswith("  - ")]
        return i, "%s (%s)" % (prop, ", ".join(dict.fromkeys(mech[:3]))) if p.returncode == 1 else "missed (exit %d)" % p.returncode
    finally:
        shutil.rmtree(w)


C = json.load(open(OUT)) if os.path.exists(OUT) else {}
with ThreadPoolExecutor(int(os.environ.get("P", 2))) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
        C[i] = r
C = {i: C[i] for i in sorted(C) if os.path.isdir(os.path.join(ROOT, "seeded", i))}
json.dump(C, open(OUT, "w"), indent=1)
