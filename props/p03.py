"""Selection rules: r1 * r2 lists exactly the irreps contained in the tensor product."""
from .common import *

ASSUMPTIONS = ["Klimyk's formula and the angular momentum triangle rule as references"]
MAXP = {
    "quick": dict(SO3=200, O3=200, SU2=200, SU2Real=160, SL2C=400, SO13=400, SU2_=100, SU3=200, SU4=140, Z2=1),
    "thorough": dict(SO3=200, O3=200, SU2=200, SU2Real=200, SL2C=900, SO13=900, SU2_=100, SU3=400, SU4=400, Z2=1),
}
SWEEP = dict(SO3=9, O3=7, SU2=8, SU2Real=8, SL2C=9, SO13=12, SU2_=8, SU3=15, SU4=20, Z2=1)


def prod_labels(g, l1, l2):
    r1, r2 = G.mk(g, l1), G.mk(g, l2)
    out = list(r1 * r2)
    return r1, r2, out


def check_pair(case, ctx):
    g, l1, l2 = case["g"], tuple(case["l1"]), tuple(case["l2"])
    r1, r2, out = prod_labels(g, l1, l2)
    got = [G.label_of(g, x) for x in out]
    want = O.product(g, l1, l2)
    ctx.label(g)
    ctx.nontrivial(O.label_dim(g, l1) > 1 and O.label_dim(g, l2) > 1 or g == "Z2")
    require(len(set(got)) == len(got), f"{g}: {l1} * {l2} lists an irrep twice: {got}")
    require(set(got) == set(want), f"{g}: {l1} * {l2} = {sorted(got)}, expected {sorted(want)}")
    for x, l in zip(out, got):
        y = G.mk(g, l)
        require(x == y and y == x, f"{x} is not equal to {y}")
        require(x.dim == O.label_dim(g, l), f"dim of {x}")
    # membership, as the library and its users test it
    for l in list(want)[:3]:
        require(G.mk(g, l) in r1 * r2, f"{l} in {l1} * {l2}")
    # again, and in the other order
    require(sorted(G.label_of(g, x) for x in r1 * r2) == sorted(got), "second evaluation differs")
    require(sorted(G.label_of(g, x) for x in r2 * r1) == sorted(got), "r1 * r2 and r2 * r1 differ")
    require(G.label_of(g, r1) == l1 and G.label_of(g, r2) == l2, "operand modified")


def check_unit(case, ctx):
    g, l = case["g"], tuple(case["l"])
    r = G.mk(g, l)
    t = r.create_trivial()
    ctx.nontrivial(O.label_dim(g, l) > 1)
    require([G.label_of(g, x) for x in r * t] == [l], f"{l} * trivial")
    require([G.label_of(g, x) for x in t * r] == [l], f"trivial * {l}")
    # the trivial irrep is in r * s iff s is dual to r
    dual = O.conj_label(g, l) if g != "SO13" else l
    tl = G.label_of(g, t)
    require(tl in [G.label_of(g, x) for x in r * G.mk(g, dual)], "trivial not in r * dual")


@st.composite
def pair(draw, tier):
    g = draw(st.sampled_from(G.GROUPS))
    m = MAXP[tier][g]
    return dict(g=g, l1=draw(G.st_label(g, m)), l2=draw(G.st_label(g, m)))


def sweep(tier):
    out = []
    for g in G.GROUPS:
        labs = G.labels(g, SWEEP[g] * (1 if tier == "quick" else 2))
        out += [dict(g=g, l1=list(a), l2=list(b)) for a in labs for b in labs]
    return out


def check_product(case, ctx):
    """Irreps of a direct product of groups."""
    import lie_nn as lie

    g1, g2 = case["g1"], case["g2"]
    a1, a2, b1, b2 = (tuple(case[k]) for k in ("a1", "a2", "b1", "b2"))
    r = lie.group_product(G.mk(g1, a1), G.mk(g2, a2))
    s = lie.group_product(G.mk(g1, b1), G.mk(g2, b2))
    out = list(r * s)
    got = [(G.label_of(g1, x.rep1), G.label_of(g2, x.rep2)) for x in out]
    want = {(x, y) for x in O.product(g1, a1, b1) for y in O.product(g2, a2, b2)}
    ctx.nontrivial(len(want) > 1)
    require(len(got) == len(set(got)) and set(got) == want, f"{got}, expected {want}")
    for x in out:
        require(x.dim == x.rep1.dim * x.rep2.dim, "dim")
        require(x in r * s, "membership")
    require(len(list(r * s)) == len(out), "second evaluation")


@st.composite
def product_case(draw, tier):
    g1, g2 = draw(st.sampled_from(G.GROUPS)), draw(st.sampled_from(G.GROUPS))
    return dict(
        g1=g1, g2=g2,
        a1=draw(G.st_label(g1, SWEEP[g1])), b1=draw(G.st_label(g1, SWEEP[g1])),
        a2=draw(G.st_label(g2, SWEEP[g2])), b2=draw(G.st_label(g2, SWEEP[g2])),
    )


def components(tier):
    return [
        Component("pairs", check_pair, "distinct pairs of labels of dimension > 1", sweep=sweep),
        Component("random", check_pair, "distinct pairs of labels of dimension > 1", strategy=pair, n=dict(quick=2400, thorough=6000)),
        Component("unit", check_unit, "labels of dimension > 1", sweep=lambda t: [dict(g=g, l=list(l)) for g in G.GROUPS for l in G.labels(g, 25 if t == "quick" else 60)]),
        Component("product", check_product, "pairs with more than one irrep in the product", strategy=product_case, n=dict(quick=1200, thorough=4000)),
    ]
