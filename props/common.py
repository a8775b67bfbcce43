"""Helpers shared by the property modules."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.driver import Component, Skip, Violation  # noqa: F401

require = O.require
close = O.close

# tolerance of quantities of tabulated irreps (the Clebsch-Gordan coefficients of SO13 and SU(N) are
# rounded to square roots of rationals)
TOL = {g: 1e-8 for g in G.GROUPS}
TOL.update(SO13=1e-6, SU2_=1e-6, SU3=1e-6, SU4=1e-6, SU2Real=1e-6)
TOL.update({g: max(TOL[f] for f in g.split("*")) for g in G.PGROUPS})

# dimensions explored for single irreps
IRREP_MAX = {
    "quick": dict(SO3=101, O3=81, SU2=90, SU2Real=80, SL2C=49, SO13=25, SU2_=30, SU3=45, SU4=45, Z2=1),
    "thorough": dict(
        SO3=161, O3=121, SU2=140, SU2Real=120, SL2C=64, SO13=28, SU2_=40, SU3=90, SU4=84, Z2=1
    ),
}
# a few labels far beyond
FAR = dict(
    SO3=[[75], [100]], O3=[[60, 1], [75, -1]], SU2=[[99], [127], [150], [200]], SU2Real=[[98], [99], [120]],
    SL2C=[[0, 40], [40, 1], [2, 30], [60, 0]], SO13=[[10, 0], [0, 12], [9, 1], [1, 7], [6, 2]],
    SU2_=[[60, 0], [99, 0]], SU3=[[9, 0, 0], [9, 9, 0], [7, 2, 0], [6, 3, 0], [12, 0, 0]],
    SU4=[[5, 0, 0, 0], [5, 5, 5, 0], [3, 3, 0, 0], [3, 2, 1, 0]],
)
SMALL = dict(SO3=7, O3=5, SU2=5, SU2Real=5, SL2C=6, SO13=6, SU2_=5, SU3=8, SU4=6, Z2=1)

TEXT_GROUPS = [g for g in G.GROUPS if g != "SU2Real"]


def mat_scale(*xs):
    m = 1.0
    for x in xs:
        x = np.asarray(x)
        if x.size:
            m = max(m, float(np.max(np.abs(x))))
    return m


def raises(f, *exc):
    """Whether f raises; a return value is a failure."""
    try:
        f()
    except exc or (Exception,):
        return True
    return False


def triple(r):
    return r.algebra(), r.continuous_generators(), r.discrete_generators()


def is_rep_of(r, A, what, tol=1e-8):
    """The generators of r satisfy the algebra A."""
    X = O.arr(r.continuous_generators(), f"{what}: X")
    n = A.shape[0]
    require(X.ndim == 3 and X.shape[0] == n and X.shape[1] == X.shape[2], f"{what}: X {X.shape}")
    d = X.shape[1]
    H = O.arr(r.discrete_generators(), f"{what}: H")
    require(H.ndim == 3 and H.shape[1:] == (d, d), f"{what}: H {H.shape}")
    lhs = np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X)
    rhs = np.einsum("ijk,kab->ijab", A, X)
    close(lhs, rhs, f"{what}: commutators", tol, scale=mat_scale(X) ** 2 + 1)
