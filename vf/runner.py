# -*- coding: utf-8 -*-
"""Generated-input driver.

A check is a list of `Sub` objects.  Every `Sub` has a Hypothesis strategy that
yields a JSON-able *spec*, an oracle that raises `Violation` (or lets the code
under test raise) when the property fails on that spec, and a non-triviality
rule.  The run is a pure function of the code and VERIF_SEED.
"""
import errno
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback

from . import boot

EVID = os.environ.get("VF_EVIDENCE", os.path.join(boot.VERIF, "evidence"))   # elsewhere: own development only


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Sub:
    def __init__(self, name, strategy, oracle, nontrivial=None, rule="", quick=200, thorough=None, classify=None):
        self.name, self.strategy, self.oracle = name, strategy, oracle
        self.nontrivial = nontrivial or (lambda s: True)
        self.rule, self.quick = rule, quick
        self.thorough = thorough or quick * 15
        self.classify = classify


class Known:
    """A fixed input on which the current tree is known to violate the property."""
    def __init__(self, key, spec, oracle):
        self.key, self.spec, self.oracle = key, spec, oracle


class Check:
    def __init__(self, pid, subs, known=(), kernels=(), assumptions=(), setup=None):
        self.pid, self.subs, self.known = pid, subs, list(known)
        self.kernels, self.assumptions, self.setup = kernels, list(assumptions), setup


def close(a, b, tol, what, scale=None):
    """|a-b| <= tol*scale with scale = max|b| (or max|a|) unless given."""
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s instead of %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        raise Violation("%s: not finite: %s" % (what, a.tolist()))
    if scale is None:
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
    d = np.max(np.abs(a - b))
    if not d <= tol * scale + 1e-300:
        k = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
        raise Violation("%s: |difference| %.6g > %.3g (scale %.6g); got %r expected %r at %s"
                        % (what, d, tol * scale, scale, float(a[k]), float(b[k]), [int(i) for i in k]))


def require(cond, what):
    if not cond:
        raise Violation(what)


KNOWN_FILE = os.path.join(boot.VERIF, "known_findings.txt")


def known_findings(pid):
    """key -> text of the KNOWN-FINDING lines of this property."""
    res = {}
    try:
        with open(KNOWN_FILE, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % pid):
                    rest = line.split(None, 2)[2]
                    key = rest.split(None, 1)[0]
                    if key.startswith("key="):
                        res[key[4:]] = rest
    except OSError:
        pass
    return res


def _is_env(e):
    if isinstance(e, (HarnessError, boot.BuildError)) or isinstance(e, MemoryError) and not _LIMITED:
        return True
    return isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM)


def _describe(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/hyperstatic/" in fr.filename:
            where = " at %s:%d" % (fr.filename.split("/hyperstatic/", 1)[1], fr.lineno)
            break
    return "%s: %s%s" % (type(e).__name__, e, where)


_LIMITED = False
CASE_MEM = 3 << 30          # address space of a worker; the checks themselves stay far below
CASE_CPU_S = 100            # processor time one case may take; ordinary cases take well below one second


class _Overrun:
    """Turns a case that does not come to an end into a violation.  Counts
    processor time, so that a busy machine does not matter."""
    def __enter__(self):
        def ring(*a):
            raise Violation("no answer after %d s of processor time" % CASE_CPU_S)
        self.old = signal.signal(signal.SIGPROF, ring)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


def explore(sub, n, seed, deadline, note=None):
    """n generated cases of one sub-check; everything about them as plain data.
    `note` gets the text of each case before it is run."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis import errors as herr
    t0 = time.time()
    st = {"best": None, "bestlen": None, "err": None, "tb": None, "first": None, "evals": 0, "nontriv": 0, "harness": None,
          "distinct": set(), "samples": [], "classes": {}, "seconds": 0.0}

    def body(spec):
        now = time.time()
        if st["harness"] is not None or now > deadline:
            return
        if st["first"] is not None and now - st["first"] > 60:
            return                                  # shrinking budget used up
        text = json.dumps(spec, sort_keys=True)
        st["evals"] += 1
        if sub.nontrivial(spec):
            st["nontriv"] += 1
            h = hashlib.sha1((sub.name + text).encode()).digest()[:12]
            if h not in st["distinct"]:
                st["distinct"].add(h)
                k = len(st["samples"])
                if k < 2 and st["nontriv"] in (2, 40) or (k == 0 and st["nontriv"] == 1):
                    st["samples"].append("%s: %s" % (sub.name, text[:600]))
        if sub.classify:
            for c in sub.classify(spec):
                k = sub.name + "/" + c
                st["classes"][k] = st["classes"].get(k, 0) + 1
        if note is not None:
            note(text)
        try:
            with _Overrun():
                sub.oracle(spec)
        except herr.UnsatisfiedAssumption:
            raise
        except Exception as e:
            if _is_env(e):
                st["harness"] = repr(e)
                return
            if st["best"] is None or len(text) <= st["bestlen"]:
                st["best"], st["bestlen"], st["err"] = spec, len(text), _describe(e)
                st["tb"] = traceback.format_exc()
            if st["first"] is None:
                st["first"] = time.time()
            raise

    # decorated explicitly: @given needs the argument name
    test = given(spec=sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.filter_too_much])(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except (Exception, BaseExceptionGroup) as e:
        if st["best"] is None and st["harness"] is None:
            st["harness"] = "%s: %s" % (type(e).__name__, e)
    st["seconds"] = time.time() - t0
    return st


NOTE = 1 << 18


def _child(w, page, sub, n, seed, deadline):
    import pickle
    global _LIMITED
    try:
        resource.setrlimit(resource.RLIMIT_AS, (CASE_MEM, CASE_MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        _LIMITED = True
    except (OSError, ValueError):
        pass

    def note(text):
        b = text.encode()[:NOTE - 16]
        page[:16] = b"%16d" % len(b)
        page[16:16 + len(b)] = b
    try:
        r = explore(sub, n, seed, deadline, note)
    except BaseException as e:
        r = {"harness": repr(e)}
    try:
        with os.fdopen(w, "wb") as f:
            pickle.dump(r, f)
    finally:
        os._exit(0)


def _died(status, page):
    """A worker that went down with a signal of its own making has found a case
    on which the code under test crashes; anything else is our trouble."""
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    size = page[:16].strip(b"\0 ")
    if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT) and size:
        text = page[16:16 + int(size)].decode()
        try:
            spec = json.loads(text)
        except ValueError:
            return {"harness": "a worker died of signal %d" % sig}
        return {"best": spec, "bestlen": len(text), "err": "the interpreter died of signal %d" % sig, "tb": "", "harness": None,
                "evals": 1, "nontriv": 0, "distinct": set(), "samples": [], "classes": {}, "seconds": 0.0}
    return {"harness": "a worker died (status %d)" % status}


def fan_out(jobs, width):
    """Runs (sub, n, seed, deadline) jobs in `width` forked processes; yields
    (index, result).  After a failure no further job is started."""
    import mmap
    import pickle
    import select
    if width < 2:
        for i, j in enumerate(jobs):
            r = explore(*j)
            yield i, r
            if r["harness"] is not None or r["best"] is not None:
                return
        return
    todo, live, stop = list(enumerate(jobs)), {}, False
    try:
        while (todo and not stop) or live:
            while todo and not stop and len(live) < width:
                i, j = todo.pop(0)
                sys.stdout.flush()
                sys.stderr.flush()
                r, w = os.pipe()
                page = mmap.mmap(-1, NOTE)
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for fd in live:
                        os.close(fd)
                    _child(w, page, *j)
                os.close(w)
                live[r] = (i, pid, [], page)
            ready, _, _ = select.select(list(live), [], [], 5.0)
            for fd in ready:
                part = os.read(fd, 1 << 16)
                if part:
                    live[fd][2].append(part)
                    continue
                i, pid, parts, page = live.pop(fd)
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                try:
                    res = pickle.loads(b"".join(parts))
                except Exception:
                    res = _died(status, page)
                page.close()
                if res["harness"] is not None or res["best"] is not None:
                    stop = True
                yield i, res
    finally:
        for fd, (i, pid, _, _) in live.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass


class Run:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + (420 if tier == "quick" else 3000)
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.classes = {}
        self.per_sub = {}
        self.violations = 0

    def run_subs(self, subs):
        """every sub-check in several shards, each with its own seed"""
        scale = float(os.environ.get("VF_SCALE", "1"))
        shards = int(os.environ.get("VF_SHARDS", "4" if self.tier == "quick" else "16"))
        width = int(os.environ.get("VF_JOBS", str(min(8, os.cpu_count() or 1))))
        jobs, of = [], []
        for k in range(shards):
            for sub in subs:
                n = sub.quick if self.tier == "quick" else -(-sub.thorough // 4)
                jobs.append((sub, max(1, int(n * scale)), self.seed * 1000003 + _stable(sub.name) + 7919 * k, self.deadline))
                of.append(sub)
        for sub in subs:
            self.per_sub[sub.name] = {"evaluations": 0, "nontrivial": 0, "rule": sub.rule, "cpu_s": 0.0}
        results = {}
        for i, st in fan_out(jobs, width):
            if st["harness"] is not None:
                raise HarnessError("%s: %s" % (of[i].name, st["harness"]))
            results[i] = st
        worst = {}
        for i in sorted(results):
            st, sub = results[i], of[i]
            p = self.per_sub[sub.name]
            p["evaluations"] += st["evals"]
            p["nontrivial"] += st["nontriv"]
            p["cpu_s"] = round(p["cpu_s"] + st["seconds"], 2)
            self.evals += st["evals"]
            self.distinct |= st["distinct"]
            if i < len(subs):
                self.samples += st["samples"]
            for c, v in st["classes"].items():
                self.classes[c] = self.classes.get(c, 0) + v
            if st["best"] is not None and (sub.name not in worst or st["bestlen"] < worst[sub.name]["bestlen"]):
                worst[sub.name] = st
        for name, st in worst.items():
            self.report(name, st["best"], st["err"])
            if os.environ.get("VF_TRACE"):
                print(st.get("tb"))
        return not worst

    def report(self, subname, spec, err):
        self.violations += 1
        rep = {"property": self.check.pid, "sub": subname, "spec": spec, "error": err, "seed": self.seed}
        name = "%s_%s_%s.json" % (self.check.pid, subname, hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:10])
        d = os.path.join(EVID, "replay")
        try:
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, name)
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
        except OSError:
            path = os.path.join("/tmp", name)
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
        print("  %s: %s" % (subname, err))
        print("  input: %s" % json.dumps(spec)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.check.pid, path), flush=True)

    def run_known(self, listed):
        ok = True
        for k in self.check.known:
            self.evals += 1
            try:
                k.oracle(k.spec)
            except Exception as e:
                if _is_env(e):
                    raise HarnessError("known %s: %r" % (k.key, e))
                if k.key in listed and isinstance(e, Violation):
                    print("KNOWN-FINDING: property=%s %s" % (self.check.pid, listed[k.key]))
                else:
                    self.report("known-" + k.key, k.spec, _describe(e))
                    ok = False
        return ok

    def write_evidence(self):
        rules = "; ".join("%s: %s" % (n, v["rule"] or "every case") for n, v in self.per_sub.items())
        ev = {
            "property": self.check.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
                "rule": "cases are counted once per distinct input; non-trivial means - " + rules,
                "samples": self.samples[:12],
                "per_generator": self.per_sub, "classes": self.classes,
            },
            "assumptions": self.check.assumptions or ["none beyond the generator domains in DESIGN.md"],
            "wall_s": round(time.time() - self.t0, 3), "violations": self.violations,
        }
        p = os.path.join(EVID, self.check.pid + ".json")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def _stable(s):
    return int.from_bytes(hashlib.sha1(s.encode()).digest()[:4], "big")


class _Mute:
    """The library prints to stdout; keep our own lines readable."""
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def main(check, tier, seed, replay=None):
    run = Run(check, tier, seed)
    real = sys.stdout
    try:
        if replay:
            import hypothesis.errors as herr
            with open(replay) as f:
                rep = json.load(f)
            for s in list(check.subs) + [Sub("known-" + k.key, None, k.oracle) for k in check.known]:
                if s.name == rep["sub"]:
                    try:
                        s.oracle(rep["spec"])
                    except herr.UnsatisfiedAssumption:
                        print("replay is outside the preconditions")
                        return 0
                    except Exception as e:
                        if _is_env(e):
                            raise
                        print("  %s: %s" % (s.name, _describe(e)))
                        if os.environ.get("VF_TRACE"):
                            traceback.print_exc()
                        print("VIOLATION property=%s replay=%s" % (check.pid, replay))
                        return 1
                    print("replay passes")
                    return 0
            raise HarnessError("no sub-check %r" % rep["sub"])
        listed = known_findings(check.pid)
        ok = run.run_known(listed)
        only = os.environ.get("VF_ONLY")
        ok = run.run_subs([x for x in check.subs if not only or x.name == only]) and ok
        if os.environ.get("VF_VERBOSE"):
            for n, p in run.per_sub.items():
                print("  %-28s %6d cases %6d nontrivial %6.1fs" % (n, p["evaluations"], p["nontrivial"], p["cpu_s"]))
        run.write_evidence()
        if os.environ.get("VF_VERBOSE"):
            for k in sorted(run.classes):
                print("     class %-50s %d" % (k, run.classes[k]))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1fs" % (
            check.pid, tier, seed, run.evals, len(run.distinct), run.violations, time.time() - run.t0))
        return 0 if ok else 1
    finally:
        sys.stdout = real
