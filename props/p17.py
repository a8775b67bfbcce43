"""Predicates on representations: irreducible, unitary, real, trivial; real forms."""
from .repcases import *
from .p16 import complex_content

ASSUMPTIONS = ["Frobenius-Schur types of the irreps from theory"]


def check_irreducible(case, ctx):
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    rep = G.build(r)
    content = complex_content(g, G.content(r))
    want = sum(content.values()) == 1
    ctx.label("irreducible" if want else "reducible")
    ctx.nontrivial(G.dim_of(r) > 1)
    got = lie.is_irreducible(rep)
    require(bool(got) == want, f"is_irreducible is {got}, content {content}")
    X = np.concatenate([rep.X, rep.H])
    require(bool(lie.util.is_irreducible(X)) == want, "util.is_irreducible")


def is_unitary_dense(dense):
    """True / False / None if too close to call"""
    e = 0.0
    for x in dense[1]:
        e = max(e, float(np.max(np.abs(x + np.conj(x.T)))))
    for h in dense[2]:
        e = max(e, float(np.max(np.abs(h @ np.conj(h.T) - np.eye(len(h))))))
    return True if e < 3e-14 else (False if e > 1e-6 else None)


def check_unitary(case, ctx):
    import lie_nn as lie

    r = case["r"]
    rep, dense = G.build(r), G.dense(r)
    want = is_unitary_dense(dense)
    ctx.label(f"unitary {want}")
    ctx.nontrivial(want is not None and G.dim_of(r) > 1)
    got = lie.is_unitary(rep)
    if want is not None:
        require(bool(got) == want, f"is_unitary is {got}")
    # tensor products, sums and conjugates of unitary representations are unitary
    if want and G.dim_of(r) <= 6:
        c = lie.conjugate(rep)
        require(bool(lie.is_unitary(c)) and bool(lie.is_unitary(lie.direct_sum(rep, c))), "conjugate, sum")
        gen = lie.GenericRep.from_rep(rep)
        require(is_unitary_dense(triple(lie.tensor_product(gen, c))) is not False, "product")


def check_real(case, ctx):
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    content = G.content(r)
    want = O.content_is_real(g, content)
    ctx.label(f"real {want}")
    ctx.nontrivial(G.dim_of(r) > 1)
    rep = G.build(r)
    got = lie.is_real(rep)
    require(bool(got) == want, f"is_real is {got} for {g} {content}")


def check_trivial(case, ctx):
    r = case["r"]
    g = G.group_of(r)
    rep, dense = G.build(r), G.dense(r)
    d = G.dim_of(r)
    err = max([0.0] + [float(np.max(np.abs(x))) for x in dense[1]] + [float(np.max(np.abs(h - 1))) for h in dense[2] if d == 1])
    want = d == 1 and err == 0.0
    ctx.nontrivial(d == 1)
    ctx.label(f"trivial {want}")
    if d == 1 and 0 < err < 1e-9:
        return
    require(bool(rep.is_trivial()) == want, f"is_trivial is {rep.is_trivial()}")


def check_make_real(case, ctx):
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    rep, dense = G.build(r), G.dense(r)
    (l,) = G.content(r)
    kind = O.any_reality(g, l)
    ctx.label(f"{kind} {r['t']}")
    ctx.nontrivial(G.dim_of(r) > 1)
    if kind != "real":
        try:
            lie.make_explicitly_real(rep)
        except ValueError:
            return
        raise Violation(f"make_explicitly_real accepted a {kind} representation")
    out = lie.make_explicitly_real(rep)
    X, H = out.X, out.H
    require(X.shape == dense[1].shape and H.shape == dense[2].shape, "shapes")
    close(np.imag(X), np.zeros(X.shape), "real generators", 1e-7)
    close(np.imag(H), np.zeros(H.shape), "real discrete generators", 1e-7)
    close(out.A, dense[0], "algebra")
    n = O.hom_dim(O.gens(dense), O.gens(triple(out)), 1e-5)
    require(n == 1, "the real form is not equivalent to the representation")
    is_rep_of(out, dense[0], "real form", 1e-6)


@st.composite
def st_any(draw, tier, kinds=G.QKINDS, types=ALL, m=8, fin=3):
    if draw(st.integers(0, 9)) < fin:
        return dict(r=draw(G.st_fin(kinds=kinds, shapes=G.ALL_SHAPES)))
    g = draw(st.sampled_from(G.REPGROUPS))
    return dict(r=draw(rep_of(g, dict(SU4=6, SO13=6).get(g, m), kinds=kinds, types=types)))


@st.composite
def st_irr(draw, tier):
    """mostly irreducible"""
    if draw(st.booleans()):
        return draw(st_any(tier))
    return draw(st_irrep_any(tier, G.QKINDS))


@st.composite
def st_irrep_any(draw, tier, kinds):
    if draw(st.integers(0, 9)) < 3:
        g = draw(st.sampled_from(sorted(O.FINITE)))
        i = draw(st.integers(0, len(O.FINITE[g]) - 1))
        return dict(r=dict(t="fin", g=g, r=[[1, i]], Q=draw(st.one_of(st.none(), G.st_qz(kinds)))))
    g = draw(st.sampled_from(G.REPGROUPS))
    ir = draw(G.st_irrep([g], dict(SU4=10, SU3=10, SO13=9).get(g, 9)).filter(ok_su2real))
    if draw(st.booleans()):
        return dict(r=ir)
    r = dict(t="red", r=[[1, ir]], Q=draw(G.st_qz(kinds)))
    return dict(r=r if draw(st.booleans()) else dict(t="gen", r=dict(r, Q=None), Q=r["Q"]))


@st.composite
def st_real(draw, tier):
    """Sums of an irrep, its conjugate and others."""
    kinds = G.QKINDS
    if draw(st.integers(0, 9)) < 4:
        return dict(r=draw(G.st_fin(maxdim=6, kinds=kinds, shapes=G.ALL_SHAPES)))
    g = draw(st.sampled_from(["SU2", "SU2", "SU3", "SU3", "SU4", "SU2_", "SO13", "SL2C", "SO3", "O3", "Z2"] + G.PGROUPS))
    m = dict(SU4=8, SO13=8).get(g, 8)
    l = draw(G.st_label(g, 4))
    terms = [[draw(st.integers(1, max(1, min(3, m // O.label_dim(g, l))))), dict(t="irrep", g=g, l=l)]]
    left = m - terms[0][0] * O.label_dim(g, l)
    lc = list(O.conj_label(g, l))
    if O.label_dim(g, lc) <= left and draw(st.booleans()):
        k = draw(st.integers(1, max(1, min(3, left // O.label_dim(g, lc)))))
        terms.append([k, dict(t="irrep", g=g, l=lc)])
        left -= k * O.label_dim(g, lc)
    if left > 0 and draw(st.booleans()):
        terms.append([1, dict(t="irrep", g=g, l=draw(G.st_label(g, left)))])
    return dict(r=dict(t="gen", r=dict(t="red", r=terms, Q=None), Q=draw(G.st_qz(kinds))))


@st.composite
def st_triv(draw, tier):
    """mostly of dimension one"""
    if draw(st.booleans()):
        return draw(st_any(tier, m=2))
    if draw(st.booleans()):
        g = draw(st.sampled_from(G.FIN))
        i = draw(st.sampled_from([i for i in range(len(O.FINITE[g])) if O.fin_dim(g, i) == 1]))
        return dict(r=dict(t="fin", g=g, r=[[1, i]], Q=None))
    g = draw(st.sampled_from(G.REPGROUPS))
    return dict(r=draw(rep_of(g, 1)))


def real_sweep(tier):
    out = []
    for g in G.ANY_GROUPS:
        for l in G.labels(g, dict(SU4=15, SU3=15, SO13=9).get(g, 9)):
            if ok_su2real(dict(t="irrep", g=g, l=list(l))):
                out.append(dict(r=dict(t="irrep", g=g, l=list(l))))
    for g in O.FINITE:
        for i in range(len(O.FINITE[g])):
            out.append(dict(r=dict(t="fin", g=g, r=[[1, i]], Q=None)))
    return out


def sweep_large(tier):
    return [dict(r=r) for r in big_reps(True) if G.dim_of(r) <= (30 if tier == "quick" else 40)] + [
        dict(r=big("SU2", (1, [n]), q, "gen")) for n, q in ((14, "dense"), (19, "unitary"), (21, "id"), (24, "cdense"))
    ] + [dict(r=big("SU3", (1, [4, 1, 0]), "unitary", "gen"))]


def components(tier):
    return [
        Component("large_irreducible", check_irreducible, "dimension > 1", sweep=sweep_large),
        Component("large_unitary", check_unitary, "dimension > 1, clearly unitary or not", sweep=sweep_large),
        Component("large_real", check_real, "dimension > 1", sweep=sweep_large),
        Component("irreducible", check_irreducible, "dimension > 1", strategy=st_irr, n=dict(quick=1000, thorough=3000)),
        Component("unitary", check_unitary, "dimension > 1, clearly unitary or not", strategy=lambda t: st.one_of(st_any(t, G.UNIT_Q), st_any(t), st_any(t, ("dense", "shear", "diag", "cdense"), fin=6)), n=dict(quick=2000, thorough=6000)),
        Component("real", check_real, "dimension > 1", strategy=st_real, n=dict(quick=1000, thorough=3000)),
        Component("trivial", check_trivial, "dimension 1", strategy=st_triv, n=dict(quick=1000, thorough=3000)),
        Component("real_sweep", check_make_real, "dimension > 1", sweep=real_sweep),
        Component("make_real", check_make_real, "dimension > 1", strategy=lambda t: st_irrep_any(t, G.UNIT_Q), n=dict(quick=1000, thorough=3000)),
    ]
