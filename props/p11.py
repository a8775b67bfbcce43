"""change_basis conjugates every matrix of the representation."""
from .repcases import *

ASSUMPTIONS = ["invertible square Q, condition number below about 6 (10^4 in the component `stretched`), any overall scale"]


def check(case, ctx):
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    rep, dense = G.build(r), G.dense(r)
    d = G.dim_of(r)
    Q1, Q2 = G.build_q(case["q1"], d), G.build_q(case["q2"], d)
    q1 = Q1.copy()
    tol = TOL.get(g, 1e-8) * 20
    ctx.label(r["t"])
    ctx.label(case["q1"]["k"])
    ctx.nontrivial(d > 1 and case["q1"]["k"] != "id")
    c1 = lie.change_basis(rep, Q1)
    w1 = O.d_basis(dense, Q1)
    O.same_dense(c1, w1, "change_basis", tol)
    close(c1.algebra(), dense[0], "the algebra is unchanged")
    require(np.array_equal(Q1, q1), "Q was modified")
    O.same_dense(rep, dense, "operand", TOL.get(g, 1e-8))
    # twice, and back
    c2 = lie.change_basis(c1, Q2)
    O.same_dense(c2, O.d_basis(w1, Q2), "two changes of basis", tol * 5)
    O.same_dense(lie.change_basis(rep, Q2 @ Q1), triple(c2), "composition", tol * 5)
    back = lie.change_basis(c1, np.linalg.inv(Q1))
    O.same_dense(back, dense, "back to the original basis", tol * 5)
    O.same_dense(c1, w1, "intermediate result", tol)
    if isinstance(c1, lie.ReducedRep):
        require(c1.dim == d, "dim")
        if reduced_like(r):
            got = {}
            for x in c1.irreps:
                got[G.label_of(g, x.rep)] = got.get(G.label_of(g, x.rep), 0) + x.mul
            require({k: v for k, v in got.items() if v} == {k: v for k, v in G.content(r).items() if v}, "irreps")
    # elements of the group
    n = dense[0].shape[0]
    a = np.array(case["a"][:n])
    k = np.array(case["k"][: len(dense[2])], dtype=int)
    m = rep.exp_map(a, k)
    close(c1.exp_map(a, k), Q1 @ m @ np.linalg.inv(Q1), "group elements", tol * 10, mat_scale(m) * 20)


@st.composite
def st_case(draw, tier):
    if draw(st.integers(0, 9)) == 0:
        r = draw(G.st_fin(shapes=G.INT_SHAPES))
    else:
        g = draw(st.sampled_from(G.REPGROUPS))
        r = draw(rep_of(g, dict(SO13=9).get(g, 12 if tier == "quick" else 20), zero=True))
    return dict(
        r=r, q1=draw(G.st_qz()), q2=draw(G.st_qz()), a=draw(G.st_alg(15, small=True)),
        k=[draw(st.integers(0, 2)) for _ in range(4)],
    )


def check_products(case, ctx):
    """Changing the basis of the factors changes the basis of the product."""
    import lie_nn as lie

    a, b = case["a"], case["b"]
    g = G.group_of(a)
    ra, rb = G.build(a), G.build(b)
    Qa, Qb = G.build_q(case["qa"], G.dim_of(a)), G.build_q(case["qb"], G.dim_of(b))
    ctx.nontrivial(G.dim_of(a) > 1 and G.dim_of(b) > 1)
    tp = lie.tensor_product(ra, rb)
    lhs = lie.tensor_product(lie.change_basis(ra, Qa), lie.change_basis(rb, Qb))
    O.same_dense(lhs, triple(lie.change_basis(tp, np.kron(Qa, Qb))), "product of changed bases", TOL.get(g, 1e-8) * 200)
    ds = lie.direct_sum(lie.change_basis(ra, Qa), lie.change_basis(rb, Qb))
    Q = O.m_direct_sum([Qa, Qb])
    O.same_dense(ds, triple(lie.change_basis(lie.direct_sum(ra, rb), Q)), "sum of changed bases", TOL.get(g, 1e-8) * 50)


@st.composite
def st_products(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    m = 4
    f = rep_of(g, m).filter(ok_su2real)
    return dict(a=draw(f), b=draw(f), qa=draw(G.st_qz()), qb=draw(G.st_qz()))


def check_stretched(case, ctx):
    """Changes of basis with entries of very different size."""
    import lie_nn as lie

    r = case["r"]
    rep, dense = G.build(r), G.dense(r)
    n = G.dim_of(r)
    rs = np.random.RandomState(case["s"])
    u, v = (np.linalg.qr(rs.normal(size=(n, n)) + (1j * rs.normal(size=(n, n)) if case["c"] else 0))[0] for _ in range(2))
    w = 10.0 ** (case["e"] * rs.uniform(-1, 1, n))
    if n:
        w[0], w[-1] = 10.0 ** case["e"], 10.0 ** -case["e"]
    u, v = (np.eye(n) if x else y for x, y in zip(case["plain"], (u, v)))
    Q, iQ = u @ np.diag(w) @ v, np.conj(v.T) @ np.diag(1 / w) @ np.conj(u.T)
    ctx.nontrivial(n > 1 and case["e"] >= 1)
    ctx.label(f"{r['t']} 1e{case['e'] * 2}")
    cond = 10.0 ** (2 * case["e"])
    got = lie.change_basis(rep, Q)
    for f, xs, ys in (("X", dense[1], got.continuous_generators()), ("H", dense[2], got.discrete_generators())):
        require(np.shape(ys) == np.shape(xs), f"{f}: shape {np.shape(ys)}")
        for x, y in zip(xs, ys):
            err = np.abs(y - Q @ x @ iQ).max(initial=0)
            require(err <= 1e-12 * cond * cond * max(1, np.abs(x).max(initial=0)), f"{f} is off by {err:.1e} (condition {cond:.0e})")
            # seen from the original basis
            err = np.abs(iQ @ y @ Q - x).max(initial=0)
            require(err <= 1e-13 * cond**3 * max(1, np.abs(x).max(initial=0)), f"{f} is off by {err:.1e} in the original basis")


@st.composite
def st_stretched(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    r = draw(G.st_fin(shapes=G.INT_SHAPES)) if draw(st.integers(0, 6)) == 0 else draw(rep_of(g, dict(SO13=9).get(g, 10)))
    return dict(
        r=r, s=draw(st.integers(0, 2**16)), e=draw(st.sampled_from([0, 1, 1.5, 2])), c=draw(st.booleans()),
        plain=[draw(st.booleans()), draw(st.booleans())],
    )


def sweep_large(tier):
    kinds = ["dense", "rot", "cdense", "shear", "unitary", "diag"]
    return [
        dict(r=r, q1=dict(k=kinds[i % 6], s=i), q2=dict(k=kinds[(i + 1) % 6], s=i), a=[x / 3 for x in AL], k=[1, 2, 1, 1])
        for i, r in enumerate(big_reps(tier == "quick"))
    ]


def components(tier):
    return [
        Component("large", check, "dimension > 1 and Q not the identity", sweep=sweep_large),
        Component("change_basis", check, "dimension > 1 and Q not the identity", strategy=st_case, n=dict(quick=900, thorough=8000)),
        Component("stretched", check_stretched, "dimension > 1 and condition number of 100 or more", strategy=st_stretched, n=dict(quick=600, thorough=4000)),
        Component("products", check_products, "both factors of dimension > 1", strategy=st_products, n=dict(quick=360, thorough=3000)),
    ]
