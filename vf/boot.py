# -*- coding: utf-8 -*-
"""Bootstrap shared by every check: environment, import paths, the `quadpy`
stand-in and the on-demand build of the element kernels from /repo's sources.

Importing this module has side effects on purpose and must happen before numpy
is imported anywhere else.
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, REPO)     # VF_REPO: scratch copies (own development only)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
# hypothesis lives in the tooling venv (same python 3.12); appended at the END
# so that numpy/scipy & co still come from the project's own environment.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import atexit          # noqa: E402
import logging         # noqa: E402
import shutil          # noqa: E402
import subprocess      # noqa: E402
import sysconfig       # noqa: E402
import tempfile        # noqa: E402
import types           # noqa: E402
import warnings        # noqa: E402

import numpy as np     # noqa: E402

warnings.simplefilter("ignore")
_SCRATCH = None


def _hyp_dir():
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch(), "hyp")


def scratch():
    """One private scratch directory per process, removed at exit."""
    global _SCRATCH
    if _SCRATCH is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _SCRATCH = tempfile.mkdtemp(prefix="vf_", dir=base)
        atexit.register(shutil.rmtree, _SCRATCH, True)
    return _SCRATCH


_hyp_dir()


# --------------------------------------------------------------------------
# quadpy stand-in.  The real package is a third-party quadrature library that
# cannot be installed here; the integrals it is asked for are well defined, so
# the stand-in computes them with rules of at least the requested degree.
# --------------------------------------------------------------------------
def _gauss(n):
    return np.polynomial.legendre.leggauss(n)


class _C2Scheme:
    def __init__(self, degree):
        if degree <= 1:                            # one point
            self._p, self._w = np.zeros((2, 1)), np.array([4.0])
            return
        if degree <= 3:
            # quadpy's "good scheme" of degree 2/3 on the square is the 4-point
            # Albrecht-Collatz rule (reproduces the reference displacements in
            # tests/test_core/test_elm_quad/test_DKGQ.py to 4 digits).
            r = (2.0 / 3.0) ** 0.5
            self._p = np.array([[r, -r, 0, 0], [0, 0, r, -r]])
            self._w = np.ones(4)
            return
        n = degree // 2 + 1
        x, w = _gauss(n)
        X, Y = np.meshgrid(x, x, indexing="ij")
        self._p = np.vstack([X.ravel(), Y.ravel()])
        self._w = np.outer(w, w).ravel()

    def integrate(self, f, quad):
        q = np.asarray(quad, dtype=float)          # (2,2,2) tensor grid corners
        x0, x1 = q[0, 0, 0], q[1, 0, 0]
        y0, y1 = q[0, 0, 1], q[0, 1, 1]
        jac = (x1 - x0) * (y1 - y0) / 4.0
        p = np.vstack([x0 + (self._p[0] + 1) * (x1 - x0) / 2,
                       y0 + (self._p[1] + 1) * (y1 - y0) / 2])
        return np.asarray(f(p)).dot(self._w) * jac


class _T2Scheme:
    def __init__(self, degree):
        if degree <= 1:                            # one point
            self._p, self._w = np.array([[1.0 / 3], [1.0 / 3]]), np.array([0.5])
            return
        n = degree // 2 + 2
        x, w = _gauss(n)
        u, wu = (x + 1) / 2, w / 2
        P, W = [], []
        for a, wa in zip(u, wu):                   # Duffy map of the unit square
            for b, wb in zip(u, wu):
                P.append((a, b * (1 - a)))
                W.append(wa * wb * (1 - a))
        self._p = np.array(P).T
        self._w = np.array(W)                      # sums to 1/2

    def integrate(self, f, tri):
        t = np.asarray(tri, dtype=float)           # 3 x 2
        e1, e2 = t[1] - t[0], t[2] - t[0]
        jac = abs(e1[0] * e2[1] - e1[1] * e2[0])   # = 2*area
        p = t[0][:, None] + np.outer(e1, self._p[0]) + np.outer(e2, self._p[1])
        return np.asarray(f(p)).dot(self._w) * jac


def _rectangle_points(xr, yr):
    return np.array([[[xr[0], yr[0]], [xr[0], yr[1]]],
                     [[xr[1], yr[0]], [xr[1], yr[1]]]], dtype=float)


def install_quadpy():
    if "quadpy" in sys.modules:
        return
    try:
        import quadpy  # noqa: F401  (should a real one ever be present)
        return
    except Exception:
        pass
    q = types.ModuleType("quadpy")
    q.c2 = types.SimpleNamespace(get_good_scheme=lambda n: _C2Scheme(n),
                                 rectangle_points=_rectangle_points)
    q.t2 = types.SimpleNamespace(get_good_scheme=lambda n: _T2Scheme(n))
    sys.modules["quadpy"] = q


# --------------------------------------------------------------------------
# element kernels, rebuilt from the .pyx / wrapped_code_*.c in the working tree
# --------------------------------------------------------------------------
_META = "hyperstatic/core/fe_model/meta/"
KERNELS = {
    "metaT9": (_META + "membranes/T9", "wrapped_code_0"),
    "metaGQ12": (_META + "membranes/GQ12", "wrapped_code_0"),
    "metaDKT": (_META + "plates/metaDKT", "wrapped_code_0"),
    "metaDKQ": (_META + "plates/metaDKQ", "wrapped_code_0"),
    "metaTMQb": (_META + "plates/TMQ", "wrapped_code_0"),
}


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))


def build_kernels(names):
    """Compile the named kernels from the current working tree and put them
    first on sys.path (ahead of any stale binary in /repo)."""
    out = os.path.join(scratch(), "kernels")
    os.makedirs(out, exist_ok=True)
    inc_py = sysconfig.get_paths()["include"]
    inc_np = np.get_include()
    ext = sysconfig.get_config_var("EXT_SUFFIX") or ".so"

    def one(name):
        src, wrapped = KERNELS[name]
        src = os.path.join(REPO, src)
        d = os.path.join(scratch(), "build_" + name)
        os.makedirs(d, exist_ok=True)
        for fn in (name + ".pyx", wrapped + ".c", wrapped + ".h"):
            shutil.copy(os.path.join(src, fn), os.path.join(d, fn))
        cy = "/opt/venv/bin/cython"
        _run([cy, "-3", name + ".pyx", "-o", name + ".c"], d)
        _run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-fno-strict-aliasing", "-I", d, "-I", inc_py, "-I", inc_np,
              name + ".c", wrapped + ".c", "-o", os.path.join(out, name + ext), "-lm"], d)
        shutil.rmtree(d, True)

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for fut in [ex.submit(one, n) for n in names]:
            fut.result()
    sys.path.insert(0, out)
    return out


class _Quiet(logging.Handler):
    def emit(self, record):
        pass


def quiet():
    """The library configures the root logger and prints; silence both."""
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(_Quiet())
    root.setLevel(logging.CRITICAL)
    logging.disable(logging.CRITICAL)


def prepare(kernels=()):
    install_quadpy()
    if kernels:
        build_kernels(kernels)
    quiet()
    import hyperstatic
    p = os.path.realpath(os.path.dirname(hyperstatic.__file__))
    want = os.path.realpath(os.path.join(REPO, "hyperstatic"))
    if p != want:
        raise RuntimeError("hyperstatic imported from %s, not %s" % (p, want))
    import hyperstatic.core  # noqa: F401
    quiet()
