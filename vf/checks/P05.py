# Beam interpolation functions.
import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..runner import Check, Sub, Violation, close, require
from .P03 import prop, elem

loc = st.fixed_dictionaries({"e": prop, "xi": gen.num(0, 1, 3), "v": st.lists(gen.num(-3, 3, 2), min_size=12, max_size=12)})
S2, S3 = [1, 5, 7, 11], [2, 4, 8, 10]


def parts(N, v):
    """axial, deflection along 2, deflection against 3, twist."""
    return np.array([N[:2] @ v[[0, 6]], N[2:6] @ v[S2], N[6:10] @ v[S3], N[10:] @ v[[3, 9]]])


def o_values(s):
    e = elem(s["e"])
    L, xi, v = s["e"]["L"], s["xi"], np.array(s["v"])
    N = np.asarray(e.interpolate(xi), float)
    require(N.shape == (12,), "12 values expected")
    R = ref.N_matrix(xi, L) @ v
    R[2] = -R[2]
    sc = np.max(np.abs(v)) * max(1, L) + 1e-9
    close(parts(N, v), R, 1e-9, "interpolated displacement", scale=sc)
    F = e.get_shape_function()
    require(len(F) == 12, "12 shape functions expected")
    close([f(xi) for f in F], N, 1e-9, "shape functions agree with the interpolation", scale=max(1, L))
    N1 = np.asarray(e.interpolate1(xi), float)
    sl = ref.slope_matrix(xi, L) @ v
    close([N1[2:6] @ v[S2], N1[6:10] @ v[S3]], [sl[1], sl[0]], 1e-9, "interpolated slopes", scale=np.max(np.abs(v)) * max(1, 1 / L) * 2 + 1e-9)
    h = 1e-5
    a, b = max(0, xi - h), min(1, xi + h)
    num = (np.asarray(e.interpolate(b), float) - np.asarray(e.interpolate(a), float)) / ((b - a) * L)
    close(N1, num, 2e-4, "derivative of the interpolation", scale=max(1, 1 / L) * 6)


def o_ends(s):
    """Unit end displacement is reproduced at its end, and vanishes at the other."""
    e = elem(s["e"])
    N0, N1 = np.asarray(e.interpolate(0), float), np.asarray(e.interpolate(1.0), float)
    close(N0, [1, 0, 1, 0, 0, 0, -1, 0, 0, 0, 1, 0], 1e-12, "at the start")
    close(N1, [0, 1, 0, 0, 1, 0, 0, 0, -1, 0, 0, 1], 1e-12, "at the end")
    D0, D1 = np.asarray(e.interpolate1(0), float), np.asarray(e.interpolate1(1.0), float)
    close(D0[2:10], [0, 1, 0, 0, 0, 1, 0, 0], 1e-9, "slopes at the start", scale=max(1, 1 / s["e"]["L"]))
    close(D1[2:10], [0, 0, 0, 1, 0, 0, 0, 1], 1e-9, "slopes at the end", scale=max(1, 1 / s["e"]["L"]))
    # rigid body motions are interpolated exactly
    xi, L = s["xi"], s["e"]["L"]
    N = np.asarray(e.interpolate(xi), float)
    close(N[0] + N[1], 1, 1e-9, "axial translation")
    close(N[2] + N[4], 1, 1e-9, "lateral translation")
    close(N[3] + L * N[4] + N[5], xi * L, 1e-9, "rotation", scale=L)
    close(N[10] + N[11], 1, 1e-9, "rigid twist")


def make():
    return Check("P05", [
        Sub("values", loc, o_values, lambda s: 0 < s["xi"] < 1, "interior location", quick=400),
        Sub("ends", loc, o_ends, rule="every case", quick=150),
    ])
