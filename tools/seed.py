#!/usr/bin/env python3
"""Authoring aid for planted bugs (development only).
   seed.py FILE...: each FILE is python defining ID, PROPERTY, NEEDS, BREAKS,
   EDITS=[(path, old, new)], DEMO (python source).  Writes /verif/seeded/ID,
   verifying on a scratch copy: demo passes unpatched, fails patched, the
   stable tests pass."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(cwd):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-rA", "-p", "no:cacheprovider", "--continue-on-collection-errors", "tests"], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return [l for l in r.stdout.splitlines() if " passed" in l or " failed" in l][-1]


def make(fn):
    ns = {}
    exec(open(fn, encoding="utf-8").read(), ns)
    d = os.path.join(HERE, "seeded", ns["ID"])
    shutil.rmtree(d, True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        c = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", c], check=True)
        open(os.path.join(d, "h.py"), "w").write(open(os.path.join(HERE, "tools", "seed_helper.py")).read())
        open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write("from h import *\n" + ns["DEMO"].lstrip("\n") + "print('ok')\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python -B "$d/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for path, old, new in ns["EDITS"]:
            p = os.path.join(c, "hyperstatic", path)
            raw = open(p, newline="", encoding="utf-8").read()
            if "\r\n" in raw:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert raw.count(old) == 1, (ns["ID"], path, raw.count(old))
            open(p, "w", newline="", encoding="utf-8").write(raw.replace(old, new))
        diff = subprocess.run(["git", "diff", "--binary"], cwd=c, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        r1 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t = tests(c)
        ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")]).returncode
        ok = r0.returncode == 0 and r1.returncode != 0 and "20 passed, 11 " in t and ap == 0
        print(("OK  " if ok else "BAD ") + ns["ID"], r0.returncode, r1.returncode, t.strip("= "), ap, r0.stdout[-300:] if r0.returncode else "", "|", r1.stdout.strip()[-160:], flush=True)
        if not ok:
            shutil.rmtree(d, True)
    finally:
        shutil.rmtree(w, True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(make, sys.argv[1:]))
