"""change_algebra recombines the generators, conjugate conjugates the matrices."""
from .repcases import *

ASSUMPTIONS = ["invertible Q; the structure constants of the tabulated groups are real"]


MIXED = ("O2", "Pin2", "SU2xQ8", "T2", "SU2xU1", "U1xSU2", "SL2R", "SL2R")


def check_algebra(case, ctx):
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    rep, dense = G.build(r), G.dense(r)
    n = dense[0].shape[0]
    Q1, Q2 = G.build_q(case["q1"], n), G.build_q(case["q2"], n)
    tol = TOL.get(g, 1e-8) * 50
    ctx.label(r["t"])
    ctx.nontrivial(n > 1 and case["q1"]["k"] != "id" and G.dim_of(r) > 1)
    c1 = lie.change_algebra(rep, Q1)
    w1 = O.d_algebra(dense, Q1)
    O.same_dense(c1, w1, "change_algebra", tol)
    is_rep_of(c1, c1.algebra(), "changed algebra", tol * 5)
    c2 = lie.change_algebra(c1, Q2)
    O.same_dense(c2, O.d_algebra(w1, Q2), "two changes of algebra", tol * 10)
    O.same_dense(lie.change_algebra(rep, Q2 @ Q1), triple(c2), "composition", tol * 10)
    O.same_dense(lie.change_algebra(c1, np.linalg.inv(Q1)) if n else c1, dense, "back", tol * 10)
    O.same_dense(rep, dense, "operand", TOL.get(g, 1e-8))
    # the same element of the group in the new coordinates
    a = np.array(case["a"][:n])
    k = np.array([1] * len(dense[2]), dtype=int)
    m = rep.exp_map(Q1.T @ a, k)
    close(c1.exp_map(a, k), m, "group elements", tol * 10, mat_scale(m) * 20)
    # commutes with the other operations
    d = G.dim_of(r)
    S = G.build_q(case["s"], d)
    lhs = lie.change_algebra(lie.change_basis(rep, S), Q1)
    rhs = lie.change_basis(c1, S)
    O.same_dense(lhs, triple(rhs), "change_algebra and change_basis commute", tol * 10)
    lhs = lie.direct_sum(c1, c1)
    O.same_dense(lhs, triple(lie.change_algebra(lie.direct_sum(rep, rep), Q1)), "direct sum", tol * 10)
    if d <= 4:
        gen = lie.GenericRep.from_rep(rep)
        lhs = lie.tensor_product(c1, c1)
        O.same_dense(lhs, triple(lie.change_algebra(lie.tensor_product(gen, gen), Q1)), "product", tol * 20)


@st.composite
def st_alg_case(draw, tier):
    g = draw(st.sampled_from([g for g in G.REPGROUPS if g != "Z2"] + ["Z2"] + ["fin"] * 9))
    m = dict(SO13=6, SU4=6).get(g, 9)
    return dict(
        r=draw(G.st_fin(groups=MIXED, shapes=G.INT_SHAPES)) if g == "fin" else draw(rep_of(g, m)), q1=draw(G.st_q()), q2=draw(G.st_q()), s=draw(G.st_qz()),
        a=draw(G.st_alg(15, small=True)),
    )


def check_conj(case, ctx):
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    rep, dense = G.build(r), G.dense(r)
    tol = TOL.get(g, 1e-8) * 10
    c = lie.conjugate(rep)
    ctx.label(r["t"])
    cplx = np.any(np.imag(dense[1])) or np.any(np.imag(dense[2]))
    ctx.nontrivial(G.dim_of(r) > 1 and cplx)
    O.same_dense(c, O.d_conj(dense), "conjugate", tol)
    is_rep_of(c, dense[0], "conjugate representation", tol)
    O.same_dense(lie.conjugate(c), dense, "conjugate twice", tol)
    O.same_dense(rep, dense, "operand", TOL.get(g, 1e-8))
    n = dense[0].shape[0]
    a = np.array(case["a"][:n])
    k = np.array(case["k"][: len(dense[2])], dtype=int)
    m = rep.exp_map(a, k)
    close(c.exp_map(a, k), np.conj(m), "group elements", tol * 10, mat_scale(m))
    Q = G.build_q(case["q"], G.dim_of(r))
    lhs = lie.conjugate(lie.change_basis(rep, Q))
    O.same_dense(lhs, triple(lie.change_basis(c, np.conj(Q))), "conjugate of another basis", tol * 20)
    O.same_dense(lie.conjugate(lie.direct_sum(rep, c)), triple(lie.direct_sum(c, rep)), "direct sum", tol)
    if G.dim_of(r) <= 4:
        gen = lie.GenericRep.from_rep(rep)
        O.same_dense(
            lie.conjugate(lie.tensor_product(gen, gen)), triple(lie.tensor_product(c, c)), "product", tol * 10
        )


@st.composite
def st_conj(draw, tier):
    if draw(st.integers(0, 9)) < 2:
        r = draw(G.st_fin(shapes=G.INT_SHAPES))
    else:
        g = draw(st.sampled_from(G.REPGROUPS))
        r = draw(rep_of(g, dict(SO13=6).get(g, 9)))
    return dict(r=r, q=draw(G.st_qz()), a=draw(G.st_alg(15, small=True)), k=[draw(st.integers(0, 2)) for _ in range(4)])


def check_dual(case, ctx):
    """The conjugate of an irrep is the irrep with the conjugate label."""
    import lie_nn as lie

    g, l = case["g"], tuple(case["l"])
    c = triple(lie.conjugate(G.mk(g, l)))
    lc = O.conj_label(g, l)
    ctx.nontrivial(lc != l)
    o = triple(G.mk(g, lc))
    require(O.hom_dim(O.gens(c), O.gens(o)) == 1, f"conjugate of {l} is not {lc}")
    if lc != l:
        r = triple(G.mk(g, l))
        require(O.hom_dim(O.gens(c), O.gens(r)) == 0, f"{l} is equivalent to its conjugate")


def dual_cases(tier):
    m = 9 if tier == "quick" else 16
    return [
        dict(g=g, l=list(l))
        for g in G.ANY_GROUPS
        for l in G.labels(g, dict(SU3=15, SU4=10).get(g, m))
        if not (g == "SU2Real" and l[0] % 2)
    ]


def sweep_large(tier):
    return [dict(r=r, q=dict(k="cdense", s=i), q1=dict(k="dense", s=i), q2=dict(k="rot", s=i), s=dict(k="rot", s=i), a=[x / 3 for x in AL], k=[1, 2, 1, 1]) for i, r in enumerate(big_reps(tier == "quick"))]


def components(tier):
    return [
        Component("large_conjugate", check_conj, "complex matrices of dimension > 1", sweep=sweep_large),
        Component("large_algebra", check_algebra, "Q not the identity, dimension > 1", sweep=sweep_large),
        Component("dual", check_dual, "irreps not equivalent to their conjugate", sweep=dual_cases),
        Component("change_algebra", check_algebra, "Q not the identity, dimension > 1", strategy=st_alg_case, n=dict(quick=900, thorough=4000)),
        Component("conjugate", check_conj, "complex matrices of dimension > 1", strategy=st_conj, n=dict(quick=900, thorough=4000)),
    ]
