#!/usr/bin/env python3
"""catch.py [ID...]: run the check of each planted bug's property (or --all
checks) against a patched scratch copy of /repo; print caught / missed."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
PROPS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]


def one(i):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="catch_", dir="/tmp")
    try:
        c = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", c], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=c, check=True)
        hit = []
        for p in (PROPS if ALL else [meta["property"]]):
            e = dict(os.environ, VF_REPO=c, VERIF_SEED="1", VF_EVIDENCE=w)
            r = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "check.py"), p, "--tier", "quick"], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout:
                hit.append(p)
            elif r.returncode:
                hit.append(p + "?%d" % r.returncode)
        own = meta["property"]
        print("%-6s %s own=%s %s" % ("caught" if own in hit else "MISSED", i, own, " ".join(hit)), flush=True)
    finally:
        shutil.rmtree(w, True)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    list(ex.map(one, ids))
