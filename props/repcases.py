"""Strategies of representations used by several properties."""
from .common import *

ALL = ("irrep", "mul", "red", "gen", "sum")


def ok_su2real(d):
    """Half-integer SU2Real representations are not irreducible over the complex numbers: they take
    part in products only as generic representations."""
    t = d["t"]
    if t == "irrep":
        return d["g"] != "SU2Real" or d["l"][0] % 2 == 0
    if t in ("gen", "sum", "conj", "fin"):
        return True
    if t == "mul":
        return ok_su2real(d["r"])
    return all(ok_su2real(r) for _, r in d["r"])


def rep_of(group, maxdim, types=ALL, kinds=G.QKINDS, zero=False, **kw):
    return G.st_rep(group, maxdim, types=types, kinds=kinds, **({"allow_zero": True} if zero else {}), **kw)


@st.composite
def st_mul0(draw, group, maxdim):
    return draw(G.st_mul(group, maxdim, lo=0))


def dims_of(d):
    """dimensions of the irreps in d"""
    t = d["t"]
    if t == "irrep":
        return [O.label_dim(d["g"], d["l"])]
    if t in ("mul", "gen", "conj"):
        return dims_of(d["r"])
    if t == "red":
        return [x for _, r in d["r"] for x in dims_of(r)]
    if t == "sum":
        return dims_of(d["a"]) + dims_of(d["b"])
    return [1]


def rep_tol(g):
    return TOL.get(g, 1e-8) * 20


def nontrivial_rep(d):
    return G.dim_of(d) > 1 and any(x > 1 for x in dims_of(d))


def reduced_like(d):
    return d["t"] in ("irrep", "mul", "red")


# ---------------------------------------------------------------- large representations
# Algorithms may choose their way by the size of the arrays: a few cases beyond the random ones.


def big(g, terms, Q=None, t="red", s=5):
    """terms: multiplicity, label, multiplicity, label ..."""
    r = [[terms[i], dict(t="irrep", g=g, l=list(terms[i + 1]))] for i in range(0, len(terms), 2)]
    q = None if Q is None else dict(k=Q, s=s)
    if t == "mul":
        return dict(t="mul", m=r[0][0], r=r[0][1])
    if t == "irrep":
        return r[0][1]
    if t == "gen":
        return dict(t="gen", r=dict(t="red", r=r, Q=None), Q=q or dict(k="id", s=s))
    return dict(t="red", r=r, Q=q)


def big_reps(quick):
    """Representations of dimension 20 to 60 (120)."""
    out = [
        big("SO3", (3, [0], 2, [1], 2, [2], 1, [5], 1, [7])),
        big("SO3", (3, [0], 2, [1], 2, [2], 1, [3]), "dense"),
        big("SO3", (4, [0], 3, [1], 2, [2], 1, [3]), "rot", "gen"),
        big("O3", (2, [0, -1], 2, [1, 1], 1, [2, -1], 1, [3, -1], 1, [4, 1]), "cdense", "gen"),
        big("O3", (16, [1, -1]), t="mul"),
        big("SU2", (5, [1], 2, [3], 1, [6], 1, [9]), "unitary"),
        big("SU2", (1, [33]), t="irrep"),
        big("SU2Real", (2, [1], 3, [2], 1, [3]), "rot", "gen"),
        big("SL2C", (2, [1, 0], 1, [1, 1], 1, [2, 1], 1, [3, 2]), "shear", "gen"),
        big("SU3", (1, [2, 1, 0], 2, [1, 1, 0], 1, [3, 0, 0]), "givens"),
        big("SU4", (1, [2, 1, 1, 0], 2, [1, 0, 0, 0]), "perm", "gen"),
        big("Z2", (20, [1], 25, [-1]), "dense"),
        big("Z2", (14, [-1], 13, [1]), "rot", "gen"),
        dict(t="fin", g="S4", r=[[3, 1], [2, 2], [3, 3], [2, 4]], Q=dict(k="cdense", s=8)),
        dict(t="fin", g="SU2xQ8", r=[[2, 1], [2, 3], [2, 5], [1, 4]], Q=dict(k="dense", s=8)),
        dict(t="fin", g="SL2R", r=[[2, 0], [3, 1], [2, 2], [2, 3]], Q=dict(k="rot", s=8)),
    ]
    if not quick:
        out += [
            big("SO3", (10, [0], 10, [1], 8, [2]), "dense"),
            big("SU2", (6, [1], 5, [3], 4, [4], 3, [5], 2, [7]), "cdense", "gen"),
            big("Z2", (60, [-1], 60, [1]), "unitary", "gen"),
            big("O3", (40, [1, -1]), t="mul"),
            big("SU3", (2, [2, 1, 0], 4, [1, 1, 0], 2, [3, 0, 0]), "rot", "gen"),
        ]
    return out


AL = [0.25, -0.5, 0.375, 0.125, -0.25, 0.5, 0.0, -0.125, 0.75, 0.25, -0.375, 0.5, 0.125, -0.25, 0.25]
