"""Shared by P18 and P19: reduced tensor products."""
from .repcases import *
import itertools
import math

TENSOR_GROUPS = G.REPGROUPS
TENSOR_SWEEP = G.ANY_GROUPS
IRR = dict(SO3=7, O3=5, SU2=5, SU2Real=5, SL2C=6, SO13=4, SU2_=4, SU3=6, SU4=4, Z2=1)
# largest product of the dimensions of the indices
TOTAL = {
    "quick": dict(SO3=130, O3=130, SU2=130, SU2Real=100, SL2C=100, SO13=16, SU2_=64, SU3=64, SU4=20, Z2=130),
    "thorough": dict(SO3=400, O3=400, SU2=400, SU2Real=300, SL2C=300, SO13=36, SU2_=160, SU3=160, SU4=64, Z2=400),
}
for _g in G.PGROUPS:
    IRR[_g] = min(6, max(IRR[f] for f in _g.split("*")))
    for _d in TOTAL.values():
        _d[_g] = 64
TOTAL["quick"]["SU3*Z2"] = 36


def product_content(group, contents):
    out = contents[0]
    for c in contents[1:]:
        new = {}
        for a, m in out.items():
            for b, n in c.items():
                for l, k in O.product(group, a, b).items():
                    new[l] = new.get(l, 0) + m * n * k
        out = new
    return {l: m for l, m in out.items() if m}


def check_output(group, reps, denses, res, tol, equi_scale=None):
    """Structure and equivariance of a RepArray.  Returns (dims, M) with M of shape (dout, prod dims)"""
    import lie_nn as lie

    dims = tuple(d[1].shape[1] for d in denses)
    require(isinstance(res.rep, lie.ReducedRep), f"rep is {type(res.rep)}")
    B = O.arr(res.array, "array")
    dout = res.rep.dim
    require(B.shape == dims + (dout,), f"array has shape {B.shape}, expected {dims + (dout,)}")
    require(res.rep.Q is None, "the output is in the reduced basis")
    # irreps are sorted and combined
    irs = [x.rep for x in res.rep.irreps]
    require(all(x.mul >= 1 for x in res.rep.irreps), "an irrep with multiplicity 0")
    for a, b in zip(irs, irs[1:]):
        require(bool(a < b), f"irreps not sorted/combined: {a}, {b}")
    # list is the same data per irrep
    require(len(res.list) == len(irs), "length of list")
    cursor = 0
    for x, y in zip(res.rep.irreps, res.list):
        n = x.mul * x.rep.dim
        require(y.shape == dims + (x.mul, x.rep.dim), f"list entry of shape {y.shape}")
        require(np.array_equal(y.reshape(dims + (n,)), B[..., cursor : cursor + n]), "list vs array")
        cursor += n
    M = B.reshape(-1, dout).T
    D = denses[0]
    for d in denses[1:]:
        D = O.d_tensor(D, d)
    out = triple(res.rep)
    sc = mat_scale(M) * mat_scale(D[1], out[1])
    for x, y in zip(D[1], out[1]):
        close(y @ M, M @ x, "equivariance (continuous)", tol, sc)
    for x, y in zip(D[2], out[2]):
        close(y @ M, M @ x, "equivariance (discrete)", tol, mat_scale(M) * mat_scale(D[2], out[2]))
    return dims, M


@st.composite
def st_operand(draw, g, maxdim, Q=True, zero=False, kinds=("id", "perm", "diag", "shear", "givens", "rot", "dense")):
    t = draw(st.sampled_from(["irrep", "irrep", "mul", "red", "red"]))
    maxdim = max(1, maxdim)
    top = max(1, min(maxdim, IRR[g]))
    if t == "irrep":
        r = dict(t="irrep", g=g, l=draw(G.st_label(g, top)))
    elif t == "mul":
        r = draw(G.st_mul(g, maxdim))
    else:
        r = draw(G.st_red(g, maxdim, q=Q, kinds=kinds, irr_max=top))
    return r
