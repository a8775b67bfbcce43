"""Reduction of a tensor product of several representations."""
from .rtpcases import *

ASSUMPTIONS = ["one to four indices (five to eleven with most of them of dimension 1 or 2), product of the dimensions at most a few hundred"]


def check(case, ctx):
    import lie_nn as lie

    rs = case["r"]
    g = G.group_of(rs[0])
    if not all(ok_su2real(r) for r in rs):
        return
    reps = [G.build(r) for r in rs]
    denses = [G.dense(r) for r in rs]
    total = int(np.prod([G.dim_of(r) for r in rs]))
    withQ = any(r["t"] == "red" and r["Q"] is not None for r in rs)
    ctx.nontrivial(sum(G.dim_of(r) > 1 for r in rs) > 1)
    ctx.label(f"{len(rs)} indices")
    ctx.label("Q" if withQ else "no Q")
    arg = reps if case["list"] else tuple(reps)
    res = lie.reduced_tensor_product_basis(arg)
    tol = TOL[g] * 50
    dims, M = check_output(g, reps, denses, res, tol)
    require(M.shape == (total, total), f"the reduction is not complete: {M.shape[0]} of {total}")
    want = product_content(g, [G.content(r) for r in rs])
    got = {G.label_of(g, x.rep): x.mul for x in res.rep.irreps}
    require(got == want, f"content {got}, expected {want}")
    if withQ:
        s = np.linalg.svd(M, compute_uv=False)
        require(s[-1] > 1e-4 * s[0], "the basis is not linearly independent")
    elif g != "SO13":
        close(M @ np.conj(M.T), np.eye(total), "orthonormal", 1e-6)
    else:
        require(O.rank(M) == total, "the basis is not linearly independent")
    for r, d in zip(reps, denses):
        O.same_dense(lie.GenericRep.from_rep(r), d, "operand", TOL[g])
    # deterministic
    again = lie.reduced_tensor_product_basis(reps)
    require(np.array_equal(again.array, res.array), "not deterministic")


@st.composite
def st_case(draw, tier):
    g = draw(st.sampled_from(TENSOR_GROUPS))
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 4]))
    left = TOTAL[tier][g]
    if tier == "quick":
        left = min(left, 96)
    rs = []
    for i in range(n):
        m = max(1, min(int(round(left ** (1 / (n - i)) * draw(st.sampled_from([0.7, 1, 1.5])))), left, 12))
        r = draw(st_operand(g, m))
        left = max(1, left // G.dim_of(r))
        rs.append(r)
    return dict(r=rs, list=draw(st.booleans()))


@st.composite
def st_many(draw, tier):
    """Five to eleven indices, most of them of dimension 1 or 2, in any order."""
    g = draw(st.sampled_from([g for g in TENSOR_GROUPS if g not in ("SU4", "SO13", "SU3", "SU3*Z2")]))
    n = draw(st.integers(5, 11))
    left = min(TOTAL[tier][g], 72 if tier == "quick" else 200)
    rs = []
    for i in range(n):
        m = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
        r = draw(st_operand(g, max(1, min(m, left)), kinds=("perm", "givens", "rot", "dense")))
        left = max(1, left // G.dim_of(r))
        rs.append(r)
    return dict(r=list(draw(st.permutations(rs))), list=draw(st.booleans()))


def check_two(case, ctx):
    """For two irreps the blocks are the Clebsch-Gordan coefficients (up to the choice of basis of the
    multiplicity space): same projectors."""
    import lie_nn as lie

    g, l1, l2 = case["g"], tuple(case["l1"]), tuple(case["l2"])
    a, b = G.mk(g, l1), G.mk(g, l2)
    res = lie.reduced_tensor_product_basis([a, b])
    ctx.nontrivial(a.dim > 1 and b.dim > 1)
    got = {G.label_of(g, x.rep): x.mul for x in res.rep.irreps}
    want = O.product(g, l1, l2)
    require(got == want, f"content {got}, expected {want}")
    for x, y in zip(res.rep.irreps, res.list):
        cg = lie.clebsch_gordan(a, b, x.rep)
        n = a.dim * b.dim
        u = y.reshape(n, -1)
        v = np.moveaxis(cg, 0, 2).reshape(n, -1)
        close(u @ np.linalg.pinv(u), v @ np.linalg.pinv(v), f"isotypic subspace of {x.rep}", 1e-5)
    # same as the reduction of lie.tensor_product
    tp = lie.tensor_product(a, b)
    cont = {G.label_of(g, x.rep): x.mul for x in tp.irreps} if hasattr(tp, "irreps") else want
    require(cont == want, f"tensor_product has content {cont}, expected {want}")


def sweep_two(tier):
    out = []
    m = dict(SO13=3, SU4=3, SU3=3, SU2_=4)
    for g in TENSOR_SWEEP:
        k = m.get(g, 5) + (0 if tier == "quick" else 2)
        labs = [l for l in G.labels(g, k) if g != "SU2Real" or l[0] % 2 == 0]
        out += [dict(g=g, l1=list(a), l2=list(b)) for a in labs for b in labs]
    return out


def components(tier):
    return [
        Component("lists", check, "at least two indices of dimension > 1", strategy=st_case, n=dict(quick=1050, thorough=8000), shards=32),
        Component("many indices", check, "at least two indices of dimension > 1", strategy=st_many, n=dict(quick=480, thorough=3000), shards=32),
        Component("pairs", check_two, "both irreps of dimension > 1", sweep=sweep_two),
    ]
