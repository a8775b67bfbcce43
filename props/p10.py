"""Multiples, sums of irreps and direct sums denote block diagonal matrices."""
from .repcases import *

ASSUMPTIONS = []


def check_rep(case, ctx):
    """Any representation object: its matrices, dimension and algebra."""
    r = case["r"]
    g = G.group_of(r)
    rep = G.build(r)
    want = G.dense(r)
    ctx.label(r["t"])
    ctx.nontrivial(G.dim_of(r) > 1 and len(dims_of(r)) > 1)
    O.same_dense(rep, want, str(r["t"]), TOL.get(g, 1e-8))
    require(rep.dim == G.dim_of(r), "dim")
    is_rep_of(rep, want[0], "representation", TOL.get(g, 1e-8) * 10)
    close(rep.A, want[0], "A")
    close(rep.X, want[1], "X", TOL.get(g, 1e-8))
    close(rep.H, want[2], "H", TOL.get(g, 1e-8))
    if "*" in g:  # the class of product irreps has no trivial representation of its own
        return
    t = rep.create_trivial()
    require(t.dim == 1 and bool(t.is_trivial()), f"create_trivial gives {t}")
    require(t.lie_dim == want[0].shape[0] and t.H.shape[0] == want[2].shape[0], "trivial of the same group")
    require(isinstance(repr(rep), str), "repr")
    rep.check_algebra_vs_generators(rtol=1e-6, atol=1e-6)


@st.composite
def st_rep(draw, tier):
    if draw(st.integers(0, 9)) == 0:
        return dict(r=draw(G.st_fin(shapes=G.INT_SHAPES)))
    g = draw(st.sampled_from(G.REPGROUPS))
    m = dict(SO13=10).get(g, 14)
    return dict(r=draw(st.one_of(rep_of(g, m, zero=True), st_mul0(g, m))))


def check_from_irreps(case, ctx):
    """from_irreps accepts pairs, multiples and irreps in any mixture."""
    import lie_nn as lie

    g = case["g"]
    args, terms = [], []
    for kind, m, l in case["terms"]:
        ir = G.mk(g, l)
        if kind == "irrep":
            args.append(ir)
            m = 1
        elif kind == "pair":
            args.append((m, ir))
        elif kind == "mul":
            args.append(lie.MulIrrep(m, ir))
        else:  # an irrep given by its matrices
            args.append((m, lie.GenericRep.from_rep(ir)))
        terms.append([m, dict(t="irrep", g=g, l=l)])
    desc = dict(t="red", r=terms, Q=None)
    d = G.dim_of(desc)
    Q = None
    if case["Q"] is not None:
        desc["Q"] = case["Q"]
        Q = G.build_q(case["Q"], d)
    q0 = None if Q is None else Q.copy()
    as_tuple = case.get("tuple", False)
    rep = lie.ReducedRep.from_irreps(tuple(args) if as_tuple else args, Q)
    ctx.nontrivial(len(terms) > 1)
    require([x.mul for x in rep.irreps] == [m for m, _ in terms], "multiplicities")
    require(all(x.dim == m * O.label_dim(g, r["l"]) for x, (m, r) in zip(rep.irreps, terms)), "dims")
    O.same_dense(rep, G.dense(desc), "from_irreps", TOL[g])
    if Q is not None:
        require(np.array_equal(Q, q0), "Q was modified")
        if d:
            # a matrix of the wrong size is rejected
            require(raises(lambda: lie.ReducedRep.from_irreps(args, np.eye(d + 1))), "Q of wrong shape accepted")


@st.composite
def st_from(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    terms = draw(
        st.lists(
            st.tuples(
                st.sampled_from(["irrep", "pair", "mul", "generic"]),
                st.integers(0, 3),
                G.st_label(g, 4),
            ),
            min_size=1,
            max_size=4,
        )
    )
    return dict(g=g, terms=[list(t) for t in terms], Q=draw(st.one_of(st.none(), G.st_qz())), tuple=draw(st.booleans()))


def check_sum(case, ctx):
    """direct_sum: block diagonal, associative, compatible with products and elements."""
    import lie_nn as lie

    a, b, c = case["a"], case["b"], case["c"]
    g = G.group_of(a)
    ra, rb, rc = G.build(a), G.build(b), G.build(c)
    da, db, dc = G.dense(a), G.dense(b), G.dense(c)
    ctx.label(f"{a['t']} + {b['t']}")
    ctx.nontrivial(G.dim_of(a) + G.dim_of(b) > 2)
    tol = TOL.get(g, 1e-8) * 10
    s = lie.direct_sum(ra, rb)
    O.same_dense(s, O.d_sum([da, db]), "direct_sum", tol)
    s3 = lie.direct_sum(s, rc)
    O.same_dense(s3, O.d_sum([da, db, dc]), "direct_sum of three", tol)
    O.same_dense(lie.direct_sum(ra, lie.direct_sum(rb, rc)), triple(s3), "associativity", tol)
    if G.dim_of(c) <= 4:
        left = lie.tensor_product(lie.direct_sum(ra, rb), lie.GenericRep.from_rep(rc))
        ac = lie.tensor_product(lie.GenericRep.from_rep(ra), rc)
        bc = lie.tensor_product(lie.GenericRep.from_rep(rb), rc)
        O.same_dense(left, triple(lie.direct_sum(ac, bc)), "distributivity", tol)
    n = da[0].shape[0]
    al = np.array(case["al"][:n])
    k = np.array([1] * len(da[2]), dtype=int)
    m = s.exp_map(al, k)
    close(m, O.m_direct_sum([ra.exp_map(al, k), rb.exp_map(al, k)]), "exp of a direct sum", tol, mat_scale(m))
    O.same_dense(ra, da, "operand", 1e-9)


@st.composite
def st_sum(draw, tier):
    if draw(st.integers(0, 9)) == 0:
        a = draw(G.st_fin(maxdim=4, shapes=G.INT_SHAPES))
        fb = G.st_fin(maxdim=4, groups=(a["g"],), shapes=G.INT_SHAPES)
        return dict(a=a, b=draw(fb), c=draw(fb), al=draw(G.st_alg(15, small=True)))
    g = draw(st.sampled_from(G.REPGROUPS))
    m = 6
    return dict(a=draw(rep_of(g, m)), b=draw(rep_of(g, m)), c=draw(rep_of(g, 4)), al=draw(G.st_alg(15, small=True)))


def check_many(case, ctx):
    """Many copies, many terms."""
    import lie_nn as lie

    g, m = case["g"], case["m"]
    rs = [G.mk(g, l) for l in case["ls"]]
    ctx.nontrivial()
    if case["kind"] == "mul":
        rep = lie.MulIrrep(m, rs[0])
        blocks = [rs[0]] * m
    elif case["kind"] == "terms":
        blocks = [rs[i % len(rs)] for i in range(m)]
        rep = lie.ReducedRep.from_irreps([(1, r) for r in blocks])
    else:
        blocks = [r for r in rs for _ in range(m)]
        rep = lie.ReducedRep.from_irreps([(m, r) for r in rs])
    d = sum(r.dim for r in blocks)
    require(rep.dim == d, f"dim {rep.dim}, expected {d}")
    for got, gens in ((rep.X, "continuous_generators"), (rep.H, "discrete_generators")):
        parts = [getattr(r, gens)() for r in blocks]
        O.has_shape(got, (len(parts[0]), d, d), gens)
        rest = np.array(got)
        i = 0
        for p in parts:
            n = p.shape[1]
            close(rest[:, i : i + n, i : i + n], p, f"block at {i}", TOL[g])
            rest[:, i : i + n, i : i + n] = 0
            i += n
        require(not np.any(rest), "entries outside the blocks")


def many(tier):
    out = []
    for g, ls in (("SO3", [[0], [1]]), ("O3", [[0, -1], [1, 1]]), ("Z2", [[-1], [1]]), ("SU2", [[1], [0]]), ("SU3", [[1, 0, 0], [1, 1, 0]])):
        big = 1100 if g in ("Z2", "SO3", "O3") else 300
        out += [dict(g=g, ls=ls, kind="mul", m=m) for m in (7, 33, big)]
        out += [dict(g=g, ls=ls, kind="terms", m=m) for m in (6, 17, 130)]
        out += [dict(g=g, ls=ls[::-1], kind="muls", m=m) for m in (9, 64)]
    return out


def components(tier):
    return [
        Component("many", check_many, "every case", sweep=many),
        Component("objects", check_rep, "several irreps, dimension > 1", strategy=st_rep, n=dict(quick=2000, thorough=6000)),
        Component("from_irreps", check_from_irreps, "more than one term", strategy=st_from, n=dict(quick=1600, thorough=5000)),
        Component("direct_sum", check_sum, "at least one summand of dimension > 1", strategy=st_sum, n=dict(quick=1200, thorough=4000)),
    ]
