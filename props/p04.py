"""Clebsch-Gordan coefficients of tabulated irreps are equivariant."""
from .cgcommon import *

ASSUMPTIONS = ["products of dimensions up to props/cgcommon.py CUBE"]


def check_triple(case, ctx):
    import lie_nn as lie

    g = case["g"]
    ls = [tuple(case[k]) for k in ("l1", "l2", "l3")]
    rs = [G.mk(g, l) for l in ls]
    d1, d2, d3 = (O.label_dim(g, l) for l in ls)
    cg = lie.clebsch_gordan(*rs)
    O.arr(cg, "cg")
    require(cg.ndim == 4 and cg.shape[1:] == (d1, d2, d3), f"cg has shape {cg.shape}")
    ts = [(None, r.continuous_generators(), r.discrete_generators()) for r in rs]
    allowed = ls[2] in O.product(g, ls[0], ls[1])
    ctx.label(f"{g} {'allowed' if allowed else 'forbidden'}")
    ctx.nontrivial(allowed and d1 > 1 and d2 > 1)
    if not allowed:
        require(cg.shape[0] == 0, f"forbidden path with {cg.shape[0]} solutions")
        return
    require(cg.shape[0] >= 1, "an allowed path has no solution")
    if g != "SU2Real":
        want = O.product(g, ls[0], ls[1])[ls[2]]
        require(cg.shape[0] == want, f"{cg.shape[0]} solutions, expected {want}")
    norms = np.sqrt(np.sum(np.abs(cg) ** 2, axis=(1, 2, 3)))
    require(np.all(norms > 0.3), f"vanishing solution (norms {norms})")
    res = O.cg_residual(cg, *ts)
    scale = O.scale_of(*ts) * mat_scale(cg)
    require(res <= TOL[g] * scale * 3, f"equivariance violated by {res:.3g}")
    cg2 = rs[0].clebsch_gordan(*rs)
    close(cg2, cg, "class method and function differ")
    if case.get("again"):
        # the arrays belong to the caller, who may overwrite them
        keep = cg.copy()
        for x in (cg, cg2):
            if x.flags.writeable:
                x *= 2.5
        cg = lie.clebsch_gordan(*[G.mk(g, l) for l in ls])
        close(cg, keep, "the coefficients changed after the caller scaled the ones he had got")
    if case.get("a") is not None and g not in ("Z2", "SO13"):
        # the finite form of the statement
        n = G.LIE_DIM[g]
        a = np.array(case["a"][:n]) / 4
        k = np.array([1] * G.N_H[g], dtype=int)
        D1, D2, D3 = (r.exp_map(a, k) for r in rs)
        # cg[z, i, j, k]: D3 C^T = C^T (D1 x D2) with C^T[k, ij]
        left = np.einsum("lk,zijk->zijl", D3, cg)
        right = np.einsum("zlmk,li,mj->zijk", cg, D1, D2)
        close(left, right, "D3 C = C (D1 x D2)", TOL[g] * 100, mat_scale(cg))


@st.composite
def triples(draw, tier):
    g = draw(st.sampled_from(G.GROUPS))
    bound = CUBE[tier][g]
    l1, l2 = draw(st_pair(g, max(1, int(bound ** (2 / 3))) if g != "SO13" else 25))
    d12 = O.label_dim(g, l1) * O.label_dim(g, l2)
    allowed = [l for l in O.product(g, l1, l2) if d12 * O.label_dim(g, l) <= bound]
    if allowed and draw(st.integers(0, 9)) < 8:
        l3 = draw(st.sampled_from(sorted(allowed)))
    else:
        l3 = draw(G.st_label(g, max(1, min(bound // d12, 30))))
    return dict(g=g, l1=list(l1), l2=list(l2), l3=list(l3), a=draw(st.one_of(st.none(), G.st_alg(15))), again=draw(st.booleans()))


def sweep(tier):
    out = []
    f = 1 if tier == "quick" else 3
    lim = dict(SO3=49, O3=25, SU2=36, SU2Real=36, SL2C=20, SO13=16, SU2_=25, SU3=48, SU4=40, Z2=1)
    for g in G.GROUPS:
        for a, b in pairs(g, lim[g] * f if g != "SO13" else 16):
            if trivial_pair(g, a, b):
                continue
            for c in O.product(g, a, b):
                if O.label_dim(g, a) * O.label_dim(g, b) * O.label_dim(g, c) <= CUBE[tier][g]:
                    out.append(dict(g=g, l1=list(a), l2=list(b), l3=list(c)))
    return out


def check_large(case, ctx):
    """Couplings of large spins: orthonormal, and equivariant."""
    check_triple(case, ctx)
    g = case["g"]
    rs = [G.mk(g, case[k]) for k in ("l1", "l2", "l3")]
    cg = np.asarray(rs[0].clebsch_gordan(*rs))
    g3 = np.einsum("zijk,wijl->zkwl", cg, np.conj(cg))
    z, d = cg.shape[0], rs[2].dim
    want = np.einsum("zw,kl->zkwl", np.eye(z), np.eye(d)) * (g3[0, 0, 0, 0].real if z else 1)
    close(g3, want, "the components of a coupling are not orthogonal", 1e-8)


@st.composite
def st_large(draw, tier):
    g = draw(st.sampled_from(["SU2", "SO3", "O3", "SL2C"]))
    m = 30 if tier == "quick" else 60

    def couple(a, b):
        lo, hi, step = abs(a - b), a + b, (2 if g in ("SU2", "SL2C") else 1)
        near = draw(st.integers(0, (hi - lo) // step))
        return min(lo + step * near, lo + step * ((m - lo) // step))

    if g == "SL2C":
        l1, l2 = draw(st.integers(0, 14)), draw(st.integers(0, 3))
        k1, k2 = draw(st.integers(0, 2)), draw(st.integers(0, 2))
        return dict(g=g, l1=[l1, k1], l2=[l2, k2], l3=[couple(l1, l2), couple(k1, k2)], a=None)
    u = m if g == "SU2" else m // 2
    a, b = draw(st.integers(u // 3, u)), draw(st.integers(0, u))
    x = [1] if g == "O3" else []
    m = u
    return dict(g=g, l1=[a] + x, l2=[b] + x, l3=[couple(a, b)] + x, a=None)


def far(tier):
    out = []
    for g, t in (("SU2", [(40, 40, 40), (60, 60, 60), (51, 40, 31), (80, 20, 70), (45, 45, 0), (60, 1, 61), (36, 36, 36), (50, 44, 30)]), ("SL2C", [(25, 25, 24), (30, 3, 31)])):
        for l in t if tier == "quick" else t + [tuple(2 * x for x in t[0])]:
            x = [0] if g == "SL2C" else []
            out.append(dict(g=g, l1=[l[0]] + x, l2=[l[1]] + x, l3=[l[2]] + x))
    return out


def components(tier):
    return [
        Component("far", check_large, "allowed triples with both factors of dimension > 1", sweep=far),
        Component("large", check_large, "allowed triples with both factors of dimension > 1", strategy=st_large, n=dict(quick=64, thorough=640)),
        Component("sweep", check_triple, "allowed triples with both factors of dimension > 1", sweep=sweep),
        Component("random", check_triple, "allowed triples with both factors of dimension > 1", strategy=triples, n=dict(quick=400, thorough=6000)),
    ]
