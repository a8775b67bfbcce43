"""tensor_product agrees with the Kronecker product for every combination of kinds."""
from .repcases import *

ASSUMPTIONS = ["the matrices of the irreps are those checked by P01, P02"]
# (largest irrep, largest representation)
DIMS = {
    "quick": dict(SO3=7, O3=6, SU2=6, SU2Real=6, SL2C=6, SO13=5, SU2_=5, SU3=6, SU4=6, Z2=4),
    "thorough": dict(SO3=13, O3=11, SU2=10, SU2Real=10, SL2C=9, SO13=6, SU2_=9, SU3=10, SU4=8, Z2=8),
}
for _d in DIMS.values():
    _d.update({g: 6 for g in G.PGROUPS})


def product_content(g, a, b):
    out = {}
    for l1, m1 in G.content(a).items():
        for l2, m2 in G.content(b).items():
            for l3, m in O.product(g, l1, l2).items():
                out[l3] = out.get(l3, 0) + m * m1 * m2
    return {k: v for k, v in out.items() if v}


def check(case, ctx):
    import lie_nn as lie

    a, b = case["a"], case["b"]
    g = G.group_of(a)
    ra, rb = G.build(a), G.build(b)
    da, db = G.dense(a), G.dense(b)
    ctx.label(f"{a['t']} x {b['t']}")
    ctx.label(g)
    ctx.nontrivial(G.dim_of(a) > 1 and G.dim_of(b) > 1)
    tp = lie.tensor_product(ra, rb)
    O.same_dense(tp, O.d_tensor(da, db), f"{ra} x {rb}", rep_tol(g))
    if g in G.ANY_GROUPS and reduced_like(a) and reduced_like(b):
        require(isinstance(tp, lie.ReducedRep), f"the product is not reduced but {type(tp)}")
        got = {}
        for x in tp.irreps:
            l = G.label_of(g, x.rep)
            require(x.mul >= 0, "negative multiplicity")
            got[l] = got.get(l, 0) + x.mul
        got = {k: v for k, v in got.items() if v}
        want = product_content(g, a, b)
        require(got == want, f"content {got}, expected {want}")
    # the operands are what they were
    O.same_dense(ra, da, "first operand", 1e-9)
    O.same_dense(rb, db, "second operand", 1e-9)


@st.composite
def st_case(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    m = DIMS[tier][g]
    zero = draw(st.integers(0, 3)) == 0

    def one(maxdim):
        s = st.one_of(rep_of(g, maxdim, zero=zero), st_mul0(g, maxdim) if zero else st.nothing())
        return draw(s.filter(ok_su2real))

    a = one(m)
    # keep the product of manageable size
    lim = dict(quick=dict(SO13=16, SU3=36, SU4=24), thorough=dict(SO13=36, SU3=80, SU4=60))[tier]
    mb = min(m, max(1, lim.get(g, 60 if tier == "quick" else 150) // max(1, G.dim_of(a))))
    b = one(mb)
    if draw(st.booleans()):
        a, b = b, a
    return dict(a=a, b=b)


@st.composite
def st_fin(draw, tier):
    a = draw(G.st_fin(shapes=G.INT_SHAPES))
    b = draw(G.st_fin(groups=(a["g"],), shapes=G.INT_SHAPES))
    return dict(a=a, b=b)


def check_cross(case, ctx):
    """Families with the same Lie algebra, through generic representations."""
    import lie_nn as lie

    a, b = case["a"], case["b"]
    ra = lie.GenericRep.from_rep(G.build(a))
    rb = G.build(b)
    ctx.nontrivial(G.dim_of(a) > 1 and G.dim_of(b) > 1)
    want = O.d_tensor(G.dense(a), G.dense(b))
    O.same_dense(lie.tensor_product(ra, rb), want, "generic x other family")
    want = O.d_tensor(G.dense(b), G.dense(a))
    O.same_dense(lie.tensor_product(rb, ra), want, "other family x generic")


@st.composite
def st_cross(draw, tier):
    fam = ["SO3", "SU2", "SU2Real"]
    g1, g2 = draw(st.sampled_from(fam)), draw(st.sampled_from(fam))
    return dict(a=draw(rep_of(g1, 6)), b=draw(rep_of(g2, 6)))


def sweep(tier):
    """Every pair of kinds for every group, with multiplicities and several terms."""
    out = []
    for g in G.ANY_GROUPS:
        labs = [l for l in G.labels(g, 4) if g != "SU2Real" or l[0] % 2 == 0]
        ir = lambda i: dict(t="irrep", g=g, l=list(labs[i % len(labs)]))
        two = 1 if O.label_dim(g, labs[1 % len(labs)]) > 1 or len(labs) < 3 else 2
        kinds = [
            ir(two),
            dict(t="mul", m=2, r=ir(two)),
            dict(t="red", r=[[1, ir(two)], [2, ir(0)]], Q=None),
            dict(t="red", r=[[1, ir(0)], [1, ir(two)]], Q=dict(k="dense", s=3)),
            dict(t="gen", r=dict(t="red", r=[[1, ir(two)]], Q=None), Q=dict(k="cdense", s=4)),
        ]
        out += [dict(a=a, b=b) for a in kinds for b in kinds]
        # the basis of a product with a scalar is the one of the other factor
        scalar = [dict(t="red", r=[[m, ir(0)]], Q=None) for m in (1, 2)] + [dict(t="red", r=[[2, ir(0)]], Q=dict(k="signs", s=6))]
        for s, q in enumerate(G.QKINDS):
            r = dict(t="red", r=[[1, ir(two)], [1, ir(0)]][s % 2:] + [[1 + s % 2, ir(two)]], Q=dict(k=q, s=s))
            for t in scalar:
                out += [dict(a=r, b=t), dict(a=t, b=r)]
    return out


def sweep_multiplicity(tier):
    """Products in which an irrep appears more than once."""
    ad = dict(t="irrep", g="SU3", l=[2, 1, 0])
    mul = lambda m, r=ad: dict(t="mul", m=m, r=r)
    red = lambda *terms, Q=None: dict(t="red", r=[list(x) for x in terms], Q=Q)
    one = dict(t="irrep", g="SU3", l=[0, 0, 0])
    kinds = [ad, mul(1), red([1, one], [1, ad]), red([1, ad], Q=dict(k="dense", s=3))]
    out = [dict(a=a, b=b) for a in kinds for b in kinds]
    out.append(dict(a=mul(2), b=mul(1)))
    if tier == "thorough":
        o = dict(t="irrep", g="SU3", l=[3, 1, 0])
        out += [dict(a=mul(1), b=mul(2)), dict(a=mul(2), b=mul(2))]
        out += [dict(a=ad, b=o), dict(a=mul(1, o), b=mul(1)), dict(a=red([1, one], [1, o]), b=ad)]
    return out


def sweep_large(tier):
    q = tier == "quick"
    out = [
        (big("SO3", (2, [0], 1, [1], 1, [3])), big("SO3", (1, [4], 2, [1]), "rot")),
        (big("SO3", (2, [1], 1, [4]), "rot", "gen"), big("SO3", (1, [0], 2, [2]), "dense")),
        (big("SO3", (9, [1]), t="mul"), big("SO3", (5, [1]), t="mul")),
        (big("O3", (4, [1, -1], 4, [0, -1])), big("O3", (6, [1, 1]), t="mul")),
        (big("SU2", (3, [1], 2, [2], 1, [3], 1, [4])), big("SU2", (2, [1], 2, [2]), "unitary")),
        (big("SU2", (1, [15]), t="irrep"), big("SU2", (1, [12]), t="irrep")),
        (big("Z2", (9, [1], 11, [-1]), "dense"), big("Z2", (8, [-1], 7, [1]), "cdense", "gen")),
        (big("Z2", (30, [-1]), t="mul"), big("Z2", (8, [-1], 7, [1]))),
        (big("SL2C", (2, [1, 0], 1, [1, 1], 1, [2, 0]), "rot", "gen"), big("SL2C", (2, [0, 1], 1, [1, 1]), "cdense")),
        (big("SU3", (2, [1, 0, 0], 3, [1, 1, 0])), big("SU3", (2, [1, 0, 0], 2, [0, 0, 0]))),
        (dict(t="fin", g="S4", r=[[3, 1], [2, 2], [2, 3]], Q=dict(k="cdense", s=8)), dict(t="fin", g="S4", r=[[2, 2], [2, 4], [3, 0]], Q=dict(k="rot", s=8))),
    ]
    if not q:
        reps = big_reps(True)
        out += [(a, b) for a in reps for b in reps if G.group_of(a) == G.group_of(b) and G.dim_of(a) * G.dim_of(b) <= 1300 and ok_su2real(a) and ok_su2real(b) and G.group_of(a) not in ("SU4",)]
    return [dict(a=a, b=b) for a, b in out] + [dict(a=b, b=a) for a, b in out]


def components(tier):
    return [
        Component("large", check, "both factors of dimension > 1", sweep=sweep_large),
        Component("multiplicity", check, "both factors of dimension > 1", sweep=sweep_multiplicity),
        Component("kinds", check, "both factors of dimension > 1", sweep=sweep),
        Component("random", check, "both factors of dimension > 1", strategy=st_case, n=dict(quick=1200, thorough=6000)),
        Component("finite", check, "both factors of dimension > 1", strategy=st_fin, n=dict(quick=450, thorough=1500), shards=4),
        Component("cross", check_cross, "both factors of dimension > 1", strategy=st_cross, n=dict(quick=450, thorough=1500), shards=4),
    ]
