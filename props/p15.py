"""clebsch_gordan of arbitrary representations."""
from .repcases import *

ASSUMPTIONS = ["dimensions d1 d2 d3 up to about 150 (quick)"]


def content_product(g, a, b):
    out = {}
    if g in O.FINITE:
        return None
    for l1, m1 in a.items():
        for l2, m2 in b.items():
            for l3, m in O.product(g, l1, l2).items():
                out[l3] = out.get(l3, 0) + m * m1 * m2
    return out


def check(case, ctx):
    import lie_nn as lie

    a, b, c = case["a"], case["b"], case["c"]
    g = G.group_of(a)
    ra, rb, rc = G.build(a), G.build(b), G.build(c)
    da, db, dc = G.dense(a), G.dense(b), G.dense(c)
    d1, d2, d3 = G.dim_of(a), G.dim_of(b), G.dim_of(c)
    tp = O.d_tensor(da, db)
    want = O.hom_dim(O.gens(tp), O.gens(dc))
    if g in G.ANY_GROUPS and g != "SU2Real":
        cc = G.content(c)
        m = sum(k * cc.get(l, 0) for l, k in content_product(g, G.content(a), G.content(b)).items())
        require(m == want, f"oracle: {m} != {want}")
    ctx.label(f"{min(want, 6)} paths")
    ctx.nontrivial(want > 0 and d1 > 1 and d2 > 1)
    cg = O.arr(lie.clebsch_gordan(ra, rb, rc), "cg")
    require(cg.shape == (want, d1, d2, d3), f"shape {cg.shape}, expected {want} solutions")
    if want == 0:
        return
    res = O.cg_residual(cg, da, db, dc)
    require(res <= 1e-6 * O.scale_of(da, db, dc) * mat_scale(cg), f"equivariance violated by {res:.3g}")
    M = cg.reshape(want, -1)
    s = np.linalg.svd(M, compute_uv=False)
    require(s[-1] > 0.05, f"the solutions are not independent: {s}")
    # all of them are orthogonal and of the same norm
    if not (a["t"] == b["t"] == c["t"] == "irrep"):
        close(np.conj(M) @ M.T, d3 * np.eye(want), "orthogonality of the solutions", 1e-6, d3)


SAFE_SU2REAL = 2


@st.composite
def st_case(draw, tier):
    if draw(st.integers(0, 9)) < 4:
        a = draw(G.st_fin(maxdim=4, shapes=G.ALL_SHAPES))
        f = G.st_fin(maxdim=4, groups=(a["g"],), shapes=G.ALL_SHAPES)
        return dict(a=a, b=draw(f), c=draw(f))
    g = draw(st.sampled_from(G.REPGROUPS))
    m = dict(SU4=4, SU3=3, SO13=4, Z2=3).get(g, 5)
    lim = (150 if tier == "quick" else 350) if g not in ("SU3", "SU4") else (80 if tier == "quick" else 200)
    f = lambda k: rep_of(g, max(1, min(m, k))).filter(ok_su2real)  # noqa: E731
    a = draw(f(m))
    b = draw(f(lim // G.dim_of(a)))
    left = max(1, lim // (G.dim_of(a) * G.dim_of(b)))
    if draw(st.booleans()) and g != "SU2Real":  # something contained in the product
        opts = sorted(content_product(g, G.content(a), G.content(b)))
        opts = [l for l in opts if O.label_dim(g, l) <= left]
        if opts:
            l = draw(st.sampled_from(opts))
            k = draw(st.integers(1, max(1, min(2, left // O.label_dim(g, l)))))
            c = dict(t="red", r=[[k, dict(t="irrep", g=g, l=list(l))]], Q=draw(st.one_of(st.none(), G.st_qz())))
            if draw(st.booleans()):
                c = dict(t="gen", r=c, Q=draw(G.st_qz()))
            return dict(a=a, b=b, c=c)
    return dict(a=a, b=b, c=draw(f(left)))


def check_tabulated(case, ctx):
    """The generic algorithm spans the same space as the table."""
    import lie_nn as lie

    g = case["g"]
    rs = [G.mk(g, case[k]) for k in ("l1", "l2", "l3")]
    tab = lie.clebsch_gordan(*rs)
    mixed = [lie.GenericRep.from_rep(r) if case["gen"] >> i & 1 else r for i, r in enumerate(rs)]
    cg = lie.clebsch_gordan(*mixed)
    ctx.nontrivial(tab.shape[0] > 0 and rs[0].dim > 1 and rs[1].dim > 1)
    require(cg.shape == tab.shape, f"{cg.shape} from matrices, {tab.shape} tabulated")
    if tab.shape[0]:
        A, B = tab.reshape(tab.shape[0], -1), cg.reshape(tab.shape[0], -1)
        r = O.rank(np.concatenate([A, B]), 1e-5)
        require(r == tab.shape[0], "the solutions do not span the same space")


@st.composite
def st_tab(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    lim = dict(SU4=60, SU3=110, SO13=110).get(g, 150)
    m = 6
    labs = lambda k: [l for l in G.labels(g, max(1, k)) if g != "SU2Real" or l[0] % 2 == 0]  # noqa: E731
    l1 = draw(st.sampled_from(labs(m)))
    l2 = draw(st.sampled_from(labs(min(m, lim // O.label_dim(g, l1)))))
    left = max(1, lim // (O.label_dim(g, l1) * O.label_dim(g, l2)))
    opts = [l for l in sorted(O.product(g, l1, l2)) if O.label_dim(g, l) <= left]
    if opts and draw(st.integers(0, 4)):
        l3 = draw(st.sampled_from(opts))
    else:
        l3 = draw(st.sampled_from(labs(min(left, 8))))
    return dict(g=g, l1=list(l1), l2=list(l2), l3=list(l3), gen=draw(st.integers(1, 7)))


def sweep_large(tier):
    out = [
        (big("SO3", (1, [3], 1, [2])), big("SO3", (1, [1], 2, [2]), "rot", "gen"), big("SO3", (1, [3]), t="irrep")),
        (big("SO3", (1, [1], 2, [0])), big("SO3", (3, [0], 2, [1]), "rot"), big("SO3", (5, [0], 4, [1]), "dense")),
        (big("SU2", (1, [9]), t="irrep"), big("SU2", (1, [8]), "unitary", "gen"), big("SU2", (1, [7]), t="irrep")),
        (big("Z2", (5, [-1], 4, [1]), "dense"), big("Z2", (4, [-1], 4, [1])), big("Z2", (6, [-1], 4, [1]), "rot", "gen")),
        (big("SL2C", (1, [1, 1], 2, [1, 0])), big("SL2C", (1, [1, 1], 1, [0, 1]), "rot", "gen"), big("SL2C", (1, [2, 2]), t="irrep")),
        (big("SU3", (1, [2, 1, 0]), t="irrep"), big("SU3", (1, [2, 1, 0]), "unitary", "gen"), big("SU3", (1, [2, 1, 0]), "rot", "gen")),
    ]
    if tier != "quick":
        out += [(b, a, c) for a, b, c in out] + [(a, c, b) for a, b, c in out]
    return [dict(a=a, b=b, c=c) for a, b, c in out]


def components(tier):
    return [
        Component("large", check, "a path exists and both factors have dimension > 1", sweep=sweep_large),
        Component("generic", check, "a path exists and both factors have dimension > 1", strategy=st_case, n=dict(quick=1500, thorough=4000)),
        Component("tabulated", check_tabulated, "a path exists and both factors have dimension > 1", strategy=st_tab, n=dict(quick=1000, thorough=2500)),
    ]
