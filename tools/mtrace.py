"""Helper of mutate.py --subtle (development only): probes the values at every
site, or alters those at one."""
import os
import numpy as np

F = {"round": lambda v: np.round(v, 4), "abs": abs, "drop": lambda v: np.where(np.abs(v) < 1e-6, 0.0, v), "cap": lambda v: np.clip(v, -1e3, 1e3),
     "limit12": lambda v: v[:12], "limit40": lambda v: v[:40]}
seen = {}
OUT = os.environ.get("MTRACE")


def num(v):
    return isinstance(v, (float, np.floating)) or isinstance(v, np.ndarray) and v.dtype.kind == "f"


def alter(kind, v):
    if kind[:5] == "limit":
        return F[kind](list(v))
    if num(v):
        r = F[kind](v)
        return float(r) if isinstance(v, float) else r
    return v


def probe(site, v):
    s = seen.setdefault(site, {"n": 0})
    s["n"] += 1
    if len(s) > 5 or s["n"] > 3000 and s["n"] % 50:
        return v
    if num(v):
        for k in ("round", "abs", "drop", "cap"):
            if k not in s and not np.array_equal(alter(k, v), v):
                note(site, k, s)
    return v


def probe_it(site, v):
    s = seen.setdefault(site, {"n": 0})
    if len(s) > 2:
        return v
    v = list(v)
    for k in (12, 40):
        if len(v) > k and "limit%d" % k not in s:
            note(site, "limit%d" % k, s)
    return v


def note(site, k, s):
    s[k] = 1
    with open(OUT, "a") as f:
        f.write("%s\t%s\n" % (site, k))


def w(kind, v):
    return alter(kind, v)
