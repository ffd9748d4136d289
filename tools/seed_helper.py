# Helper of a demonstration: makes hyperstatic.core importable (quadpy is not
# installed here) and gives it a private work folder.  Lies beside demo.py.
import os, sys, types, atexit, shutil, tempfile, logging, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np


class C2:
    def __init__(self, n):
        r = (2 / 3) ** .5
        self.p = np.array([[r, -r, 0, 0], [0, 0, r, -r]])

    def integrate(self, f, quad):
        return np.asarray(f(self.p)).dot(np.ones(4))


class T2:
    def __init__(self, n):
        x, w = np.polynomial.legendre.leggauss(n // 2 + 2)
        u, wu = (x + 1) / 2, w / 2
        self.p = np.array([(a, b * (1 - a)) for a in u for b in u]).T
        self.w = np.array([wa * wb * (1 - a) for a, wa in zip(u, wu) for wb in wu])

    def integrate(self, f, tri):
        return np.asarray(f(self.p)).dot(self.w)


q = types.ModuleType("quadpy")
q.c2 = types.SimpleNamespace(get_good_scheme=C2, rectangle_points=lambda a, b: None)
q.t2 = types.SimpleNamespace(get_good_scheme=T2)
sys.modules["quadpy"] = q
import hyperstatic.core as hc  # noqa
logging.disable(logging.CRITICAL)
WORK = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, WORK, True)
_n = [0]


def folder():
    _n[0] += 1
    d = os.path.join(WORK, "w%d" % _n[0])
    os.mkdir(d)
    return d


def api():
    return hc.Api(folder())


def check(cond, what):
    if not cond:
        print("FAIL:", what)
        sys.exit(1)


def near(a, b, what, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    s = max(float(np.max(np.abs(b))), 1e-12)
    check(a.shape == b.shape and np.max(np.abs(a - b)) <= tol * s, "%s: %s, expected %s" % (what, a, b))


def cantilever(a, load=(0, 0, -1e4, 0, 0, 0), l=3.0, end=None):
    """fixed node A, free node B, beam AB (I2 != I3), case c with pattern p"""
    a.add_node("A", 0, 0, 0)
    a.add_node("B", *(end or (l, 0, 0)))
    a.add_isotropic_material("steel", 7850., 2e11, .3, 1e-5)
    a.add_beam_section_general("sec", "steel", .02, .01, .01, 4e-5, 9e-5, 1e-5, 1e-3, 1e-3)
    a.add_beam("AB", "A", "B", "sec")
    a.set_nodal_restraint("A", *[True] * 6)
    a.add_loadpattern("p")
    a.set_nodal_load("p", "B", *load)
    a.add_static_case("c")
    a.add_case_pattern("c", "p", 1.)
