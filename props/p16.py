"""reduce and decompose_rep_into_irreps find the irreducible content."""
from .repcases import *

ASSUMPTIONS = ["random coefficients of the library are seeded per case; coincident eigenvalues have probability zero"]


def complex_content(g, content):
    """Over the complex numbers: dict label -> multiplicity of irreducibles."""
    if g != "SU2Real":
        return dict(content)
    return {l: m * (2 if l[0] % 2 else 1) for l, m in content.items()}


def cdim(g, l):
    if g == "SU2Real":
        return l[0] + 1
    if g in O.FINITE:
        return O.fin_dim(g, l[0])
    return O.label_dim(g, l)


def ref_gens(g, l):
    """Generators of the complex irreducible with that label."""
    if g in O.FINITE:
        return np.stack(O.FINITE_X.get(g, {l[0]: []})[l[0]] + O.FINITE[g][l[0]])
    if g == "SU2Real":
        return O.gens(triple(G.mk("SU2", (l[0],))))
    return O.gens(triple(G.mk(g, l)))


def identify(Y, g, content):
    """The label in content whose irreducible is equivalent to Y."""
    d = Y.shape[1]
    found = [l for l in content if cdim(g, l) == d and O.hom_dim(Y, ref_gens(g, l), 1e-5) == 1]
    require(len(found) == 1, f"a component of dimension {d} matches {found}")
    return found[0]


def check(case, ctx):
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    rep, dense = G.build(r), G.dense(r)
    content = complex_content(g, G.content(r))
    ctx.label(r["t"])
    ctx.label("multiplicity" if max(content.values()) > 1 else "multiplicity free")
    ctx.nontrivial(sum(content.values()) > 1)
    red = lie.reduce(rep)
    require(isinstance(red, lie.ReducedRep), f"reduce returns {type(red)}")
    tol = 1e-5
    O.same_dense(red, dense, "reduce", tol)
    if r["t"] in ("mul", "red"):
        return  # already reduced: kept
    got = {}
    for x in red.irreps:
        Y = O.gens(triple(x.rep))
        require(O.hom_dim(Y, Y) == 1, "a component is not irreducible")
        l = identify(Y, g, content)
        require(l not in got, f"irrep {l} is listed twice")
        got[l] = x.mul
    require(got == content, f"content {got}, expected {content}")
    O.same_dense(rep, dense, "operand", TOL.get(g, 1e-8))


@st.composite
def st_case(draw, tier, types=("gen", "sum", "gen", "irrep", "mul", "red")):
    m = 8 if tier == "quick" else 12
    if draw(st.integers(0, 9)) < 3:
        return dict(r=draw(G.st_fin(maxdim=min(8, m))))
    g = draw(st.sampled_from(G.REPGROUPS))
    return dict(r=draw(rep_of(g, dict(SU4=7, SO13=8).get(g, m), types=types)))


def check_decompose(case, ctx):
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    dense = G.dense(r)
    X = O.gens(dense)
    if not np.any(X.imag) and case["real"]:
        X = X.real.copy()
    content = complex_content(g, G.content(r))
    ctx.nontrivial(sum(content.values()) > 1)
    x0 = X.copy()
    Ys = lie.util.decompose_rep_into_irreps(X)
    require(np.array_equal(X, x0), "argument modified")
    got = {}
    unitary = g != "SO13" and np.allclose(X[: len(dense[1])], -np.conj(np.swapaxes(X[: len(dense[1])], 1, 2)))
    unitary = unitary and all(np.allclose(h @ np.conj(h.T), np.eye(len(h))) for h in X[len(dense[1]) :])
    for Y in Ys:
        O.arr(Y, "component")
        require(Y.ndim == 3 and Y.shape[0] == X.shape[0] and Y.shape[1] == Y.shape[2], f"shape {Y.shape}")
        require(O.hom_dim(Y, Y, 1e-5) == 1, "a component is not irreducible")
        l = identify(Y, g, content)
        got[l] = got.get(l, 0) + 1
        if unitary:
            for y in Y[: len(dense[1])]:
                close(y, -np.conj(y.T), "components of a unitary representation are unitary", 1e-5, mat_scale(X))
    require(got == content, f"components {got}, expected {content}")


@st.composite
def st_dec(draw, tier):
    c = draw(st_case(tier, types=("gen", "sum", "red")))
    c["real"] = draw(st.booleans())
    return c


def check_product(case, ctx):
    """Clebsch-Gordan series found without tables."""
    import lie_nn as lie

    g = case["g"]
    l1, l2 = tuple(case["l1"]), tuple(case["l2"])
    a, b = lie.GenericRep.from_rep(G.mk(g, l1)), G.mk(g, l2)
    tp = lie.tensor_product(a, b)
    want = complex_content(g, O.product(g, l1, l2))
    ctx.nontrivial(len(want) > 1)
    red = lie.reduce(tp)
    got = {identify(O.gens(triple(x.rep)), g, want): x.mul for x in red.irreps}
    require(len(got) == len(red.irreps) and got == want, f"{got}, expected {want}")
    O.same_dense(red, triple(tp), "reduced product", 1e-5)


def sweep(tier):
    out = []
    m = 3 if tier == "quick" else 4
    for g in G.ANY_GROUPS:
        labs = [l for l in G.labels(g, m) if not (g == "SU2Real" and l[0] % 2)]
        out += [dict(g=g, l1=list(a), l2=list(b)) for a in labs for b in labs if O.label_dim(g, a) <= O.label_dim(g, b)]
    return out


def sweep_large(tier):
    reps = [r for r in big_reps(True) if r["t"] == "gen" or (r["t"] == "fin")]
    reps += [dict(t="sum", a=r, b=r) for r in big_reps(True)[12:13]] + [big("SU2", (3, [1], 2, [2], 1, [3], 1, [5]), "unitary", "gen"), big("SO3", (1, [8], 1, [7]), "rot", "gen")]
    return [dict(r=r, real=False) for r in reps if G.dim_of(r) <= (27 if tier == "quick" else 36)]


def components(tier):
    return [
        Component("large_reduce", check, "reducible representations", sweep=sweep_large),
        Component("large_decompose", check_decompose, "reducible representations", sweep=sweep_large),
        Component("reduce", check, "reducible representations", strategy=st_case, n=dict(quick=1800, thorough=3000)),
        Component("decompose", check_decompose, "reducible representations", strategy=st_dec, n=dict(quick=1200, thorough=2500)),
        Component("products", check_product, "products of more than one irrep", sweep=sweep),
    ]
