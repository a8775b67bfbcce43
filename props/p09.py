"""tensor_power is the repeated tensor product."""
from .repcases import *

ASSUMPTIONS = ["dimensions of the power up to a few hundred"]
LIM = {
    "quick": dict(SO13=16, SU3=36, SU4=64, SU2Real=90, SU2_=40),
    "thorough": dict(SO13=64, SU3=128, SU4=100, SU2Real=260, SU2_=90),
}


def check(case, ctx):
    import lie_nn as lie

    r, n = case["r"], case["n"]
    g = G.group_of(r)
    rep = G.build(r)
    dense = G.dense(r)
    d = G.dim_of(r)
    ctx.label(f"{r['t']}^{n}")
    ctx.nontrivial(n >= 2 and (d > 1 or n > 5))
    p = lie.tensor_power(rep, n)
    one = (dense[0], np.zeros((len(dense[1]), 1, 1)), np.ones((len(dense[2]), 1, 1)))
    want = one
    for _ in range(n):
        want = O.d_tensor(want, dense)
    O.same_dense(p, want, f"({rep})^{n}", rep_tol(g) * 10)
    require(p.dim == d**n, "dimension")
    O.same_dense(rep, dense, "operand", 1e-9)
    if n == 0:
        require(bool(p.is_trivial()), "the power zero is not trivial")


@st.composite
def st_case(draw, tier):
    fin = draw(st.integers(0, 9)) < 2
    if fin:
        n = draw(st.integers(0, 5))
        m = int(128 ** (1 / max(n, 1)) + 1e-9)
        return dict(r=draw(G.st_fin(maxdim=min(6, m), shapes=G.INT_SHAPES)), n=n)
    g = draw(st.sampled_from(G.GROUPS))
    n = draw(st.integers(0, 6 if tier == "thorough" else 5))
    lim = LIM[tier].get(g, 130 if tier == "quick" else 520)
    m = max(1, int(lim ** (1 / max(n, 1)) + 1e-9))
    # with many terms the number of coupled terms explodes
    r = draw(rep_of(g, min(m, 8), zero=True, max_terms=5 if n <= 2 else 3).filter(ok_su2real))
    return dict(r=r, n=n)


@st.composite
def st_high(draw, tier):
    """High powers of representations of dimension one and two."""
    if draw(st.integers(0, 3)):
        n = draw(st.integers(5, 70))
        if draw(st.booleans()):
            g = draw(st.sampled_from(G.FIN))
            i = draw(st.sampled_from([i for i in range(len(O.FINITE[g])) if O.fin_dim(g, i) == 1]))
            return dict(r=dict(t="fin", g=g, r=[[1, i]], Q=draw(st.one_of(st.none(), G.st_q(["id", "cphase"])))), n=n)
        g = draw(st.sampled_from(["SO3", "O3", "Z2", "SU2", "SU3"]))
        return dict(r=draw(rep_of(g, 1, kinds=["id", "cphase"])), n=n)
    n = draw(st.integers(5, 7))
    if draw(st.booleans()):
        return dict(r=draw(G.st_fin(maxdim=2, shapes=G.INT_SHAPES)), n=n)
    return dict(r=draw(rep_of(draw(st.sampled_from(["SU2", "O3", "Z2"])), 2, max_terms=2)), n=n)


def sweep(tier):
    out = []
    for g in G.GROUPS:
        for l in G.labels(g, 4):
            if g == "SU2Real" and l[0] % 2:
                continue
            d = O.label_dim(g, l)
            for n in range(6):
                if d**n <= LIM[tier].get(g, 130):
                    out.append(dict(r=dict(t="irrep", g=g, l=list(l)), n=n))
                    if d <= 2:
                        out.append(dict(r=dict(t="mul", m=1, r=dict(t="irrep", g=g, l=list(l))), n=n))
    return out


def components(tier):
    return [
        Component("sweep", check, "powers >= 2 of representations of dimension > 1", sweep=sweep),
        Component("high", check, "powers above five", strategy=st_high, n=dict(quick=240, thorough=1000), shards=8),
        Component("random", check, "powers >= 2 of representations of dimension > 1", strategy=st_case, n=dict(quick=900, thorough=4000)),
    ]
