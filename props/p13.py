"""Direct products of groups."""
from .repcases import *
import itertools

ASSUMPTIONS = ["products of two to five groups, however they are nested"]


# ways to put the factors together: the arguments of nested calls of group_product
TREES = {
    2: [[0, 1]],
    3: [[0, 1, 2], [[0, 1], 2], [0, [1, 2]]],
    4: [[[0, 1], [2, 3]], [0, 1, [2, 3]], [[0, 1, 2], 3], [0, [1, [2, 3]]], [[0, 1], 2, 3], [0, [1, 2], 3]],
    5: [[[0, 1], 2, [3, 4]], [0, [1, 2, 3], 4], [0, [1, [2, [3, 4]]]], [[0, 1, 2], [3, 4]]],
}


def nest(tree, xs):
    import lie_nn as lie

    if isinstance(tree, int):
        return xs[tree]
    return lie.group_product(*[nest(t, xs) for t in tree])


def check_generic(case, ctx):
    import lie_nn as lie

    parts = case["parts"]
    reps = [G.build(p) for p in parts]
    denses = [G.dense(p) for p in parts]
    want = denses[0]
    for d in denses[1:]:
        want = O.d_product(want, d)
    ctx.label(" ".join(p["t"] for p in parts))
    ctx.nontrivial(sum(G.dim_of(p) > 1 for p in parts) > 1)
    rep = nest(case["tree"], reps)
    tol = max(TOL.get(G.group_of(p), 1e-8) for p in parts) * 10
    O.same_dense(rep, want, "group_product", tol)
    is_rep_of(rep, want[0], "product", tol)
    require(rep.dim == int(np.prod([G.dim_of(p) for p in parts])), "dim")
    require(rep.lie_dim == sum(d[0].shape[0] for d in denses), "lie_dim")
    # the element (g1, g2, ...) acts as the Kronecker product
    al = [np.array(case["a"][i : i + d[0].shape[0]]) for i, d in zip((0, 15, 30, 45, 60), denses)]
    ks = [np.array(case["k"][i : i + len(d[2])], dtype=int) for i, d in zip((0, 4, 8, 12, 16), denses)]
    m = np.ones((1, 1))
    for r, a, k in zip(reps, al, ks):
        m = np.kron(m, r.exp_map(a, k))
    got = rep.exp_map(np.concatenate(al), np.concatenate(ks))
    close(got, m, "group elements", tol * 10, mat_scale(m))
    for r, d in zip(reps, denses):
        O.same_dense(r, d, "operand", tol)


@st.composite
def st_generic(draw, tier):
    n = draw(st.sampled_from([2, 2, 2, 3, 3, 4, 5]))
    m = {2: 7, 3: 4, 4: 3, 5: 2}[n]
    groups = G.GROUPS if n < 4 else [g for g in G.GROUPS if g not in ("SU4", "SU3", "SO13")]
    parts = []
    kinds = draw(st.sampled_from(["any", "irrep"]))
    for _ in range(n):
        if kinds == "irrep":
            parts.append(draw(G.st_irrep(groups, maxdim=m)))
        elif draw(st.integers(0, 5)) == 0:
            parts.append(draw(G.st_fin(maxdim=m, shapes=G.INT_SHAPES)))
        else:
            g = draw(st.sampled_from(groups))
            parts.append(draw(rep_of(g, m)))
    return dict(parts=parts, tree=draw(st.sampled_from(TREES[n])), a=draw(G.st_alg(75, small=True)), k=[draw(st.integers(0, 2)) for _ in range(20)])


def check_cg(case, ctx):
    """Coupling coefficients of irreps of a product group."""
    import lie_nn as lie

    gs = case["g"]
    l1s, l2s = case["l1"], case["l2"]
    r1 = nest(case["tree"], [G.mk(g, l) for g, l in zip(gs, l1s)])
    r2 = nest(case["tree"], [G.mk(g, l) for g, l in zip(gs, l2s)])
    ctx.nontrivial(r1.dim > 1 and r2.dim > 1)
    ctx.label(" ".join(sorted(gs)))
    tol = max(TOL[g] for g in gs) * 20
    prods = [O.product(g, tuple(a), tuple(b)) for g, a, b in zip(gs, l1s, l2s)]
    total = 0
    t1, t2 = triple(r1), triple(r2)
    outs = list(r1 * r2)
    require(len(outs) == int(np.prod([len(p) for p in prods])), "number of irreps in the product")
    for r3 in outs:
        cg = O.arr(lie.clebsch_gordan(r1, r2, r3), "cg")
        ls = leaves(r3, gs)
        m = int(np.prod([p[l] for p, l in zip(prods, ls)]))
        require(cg.shape == (m, r1.dim, r2.dim, r3.dim), f"cg of {r3} has shape {cg.shape}")
        t3 = triple(r3)
        res = O.cg_residual(cg, t1, t2, t3)
        require(res <= tol * O.scale_of(t1, t2, t3) * mat_scale(cg), f"equivariance violated by {res:.3g}")
        require(np.sqrt(np.sum(np.abs(cg) ** 2)) > 0.3, "vanishing solution")
        total += m * r3.dim
    require(total == r1.dim * r2.dim, "the coupling is not complete")
    if r1.dim * r2.dim <= (36 if len(t1[1]) < 10 else 12):
        tp = lie.tensor_product(r1, r2)
        O.same_dense(tp, O.d_tensor(t1, t2), "tensor product of product irreps", tol * 10)
    # a forbidden output
    g0 = gs[0]
    bad = [l for l in G.labels(g0, 5) if l not in prods[0]]
    if bad:
        r3 = nest(case["tree"], [G.mk(g0, bad[0])] + [G.mk(g, sorted(p)[0]) for g, p in zip(gs[1:], prods[1:])])
        cg = lie.clebsch_gordan(r1, r2, r3)
        require(cg.shape == (0, r1.dim, r2.dim, r3.dim), f"forbidden output {cg.shape}")


def check_paths(case, ctx):
    """Several paths in several factors: all the products of paths are there and independent."""
    import lie_nn as lie

    gs = [g for g, _ in case["f"]]
    irs = [[G.mk(g, ls[i]) for g, ls in case["f"]] for i in range(3)]
    rs = [nest(case["tree"], x) for x in irs]
    m = 1
    for g, ls in case["f"]:
        m *= 4 if g == "SU2Real" and any(l[0] % 2 for l in ls) else O.product(g, tuple(ls[0]), tuple(ls[1]))[tuple(ls[2])]
    ctx.nontrivial(m > 1)
    ctx.label(f"{m} paths")
    cg = O.arr(lie.clebsch_gordan(*rs), "cg")
    require(cg.shape == (m, *(r.dim for r in rs)), f"cg has shape {cg.shape}, expected {m} paths")
    t = [triple(r) for r in rs]
    tol = max(TOL[g] for g in gs) * 20
    res = O.cg_residual(cg, *t)
    require(res <= tol * O.scale_of(*t) * mat_scale(cg), f"equivariance violated by {res:.3g}")
    sv = np.linalg.svd(cg.reshape(m, -1), compute_uv=False)
    require(sv[-1] > 1e-3 * sv[0], f"the {m} paths are not independent")


HALF = [[[1], [1], [0]], [[1], [1], [2]], [[2], [1], [1]], [[1], [2], [3]], [[3], [1], [2]]]


def sweep_paths(tier):
    """pairs and triples of factors that couple in several ways"""
    real = [["SU2Real", h] for h in HALF]
    eight = ["SU3", [[2, 1, 0]] * 3]
    one = [["Z2", [[-1], [-1], [1]]], ["SO3", [[1], [1], [1]]], ["O3", [[1, -1], [1, 1], [0, -1]]], ["SU2", [[1], [1], [0]]]]
    out = [[a, b] for a in real for b in real]
    out += [[a, b] for a in real for b in one] + [[b, a] for a in real[:3] for b in one]
    out += [[eight, b] for b in real[:2] + one[:2]] + [[b, eight] for b in real[:2] + one[:2]]
    out += [[real[0], b, real[0]] for b in one + real[:1]] + [[one[0], real[0], real[1]]]
    if tier != "quick":
        out += [[real[0], real[1], real[0]], [eight, real[2]], [eight, one[0], real[0]]]
    return [dict(f=f, tree=t) for f in out for t in TREES[len(f)]]


def leaves(r, gs):
    out = []

    def walk(x):
        if hasattr(x, "rep1") and hasattr(x, "rep2"):
            walk(x.rep1)
            walk(x.rep2)
        else:
            out.append(x)

    walk(r)
    require(len(out) == len(gs), "number of factors")
    return [G.label_of(g, x) for g, x in zip(gs, out)]


CGDIM = dict(SO13=1, SU3=3, SU4=4, SO3=5, O3=5, SU2=4, SU2Real=3, SU2_=3, SL2C=4, Z2=1)


@st.composite
def st_cg(draw, tier):
    n = draw(st.sampled_from([2, 2, 2, 3, 3, 4]))
    cheap = [g for g in G.GROUPS if g not in ("SO13", "SU3", "SU4")]
    gs = [draw(st.sampled_from(cheap * 2 + ["SU3", "SU4"])) for _ in range(n)]
    if "SU4" in gs and ("SU3" in gs or gs.count("SU4") > 1 or n > 2):
        gs = ["SU2" if g == "SU4" else g for g in gs]
    l1, l2 = [], []
    left = 48 if tier == "quick" else 200

    def lab(g, m):
        labs = [l for l in G.labels(g, max(1, min(m, CGDIM[g]))) if g != "SU2Real" or l[0] % 2 == 0]
        return list(draw(st.sampled_from(labs)))

    for g in gs:
        a = lab(g, left)
        left = left // O.label_dim(g, tuple(a))
        b = lab(g, left)
        left = left // O.label_dim(g, tuple(b))
        l1.append(a)
        l2.append(b)
    return dict(g=gs, l1=l1, l2=l2, tree=draw(st.sampled_from(TREES[n])))


def check_values(case, ctx):
    """Irreps of product groups are values: equality, hash, order are those of the pairs."""
    import lie_nn as lie

    g1, g2 = case["g1"], case["g2"]
    if {g1, g2} <= set():
        return
    ls = [tuple(map(tuple, x)) for x in case["ls"]]
    rs = [lie.group_product(G.mk(g1, a), G.mk(g2, b)) for a, b in ls]
    qs = [lie.group_product(G.mk(g1, a), G.mk(g2, b)) for a, b in ls]
    ctx.nontrivial(len(set(ls)) > 1)
    for (a, x), (b, y) in itertools.product(zip(ls, rs), zip(ls, qs)):
        require((x == y) is (a == b), f"{x} == {y}")
        if a == b:
            require(hash(x) == hash(y), "hash")
            require(not x < y, "irreflexive")
        else:
            require((x < y) != (y < x), f"total order: {x}, {y}")
            first = a[0] != b[0]
            u = (G.mk(g1, a[0]), G.mk(g1, b[0])) if first else (G.mk(g2, a[1]), G.mk(g2, b[1]))
            require(bool(x < y) == bool(u[0] < u[1]), "lexicographic order")
    s = sorted(rs)
    require(all(not b < a for a, b in zip(s, s[1:])), "sorted")
    require(len(set(rs)) == len(set(ls)), "set")
    require(all(r.dim == O.label_dim(g1, a) * O.label_dim(g2, b) for r, (a, b) in zip(rs, ls)), "dim")


@st.composite
def st_values(draw, tier):
    g1, g2 = draw(st.sampled_from(G.GROUPS)), draw(st.sampled_from(G.GROUPS))
    pairs = st.tuples(G.st_label(g1, 9), G.st_label(g2, 9)).map(list)
    return dict(g1=g1, g2=g2, ls=draw(st.lists(pairs, min_size=1, max_size=5)))


def components(tier):
    return [
        Component("matrices", check_generic, "at least two factors of dimension > 1", strategy=st_generic, n=dict(quick=600, thorough=5000)),
        Component("coupling", check_cg, "both irreps of dimension > 1", strategy=st_cg, n=dict(quick=260, thorough=2000)),
        Component("several paths", check_paths, "more than one path", sweep=sweep_paths),
        Component("values", check_values, "at least two different irreps", strategy=st_values, n=dict(quick=600, thorough=4000), shards=4),
    ]
