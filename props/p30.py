"""What does not belong together is refused, never combined into something."""
from .repcases import *

ASSUMPTIONS = [
    "non-integer labels of SO3 and O3 are not part of the check",
    "a refusal is any exception",
]


# ---------------------------------------------------------------- operands of different groups
def make(d):
    """representation described by d (a G descriptor, or an abelian one), and its triple"""
    import lie_nn as lie

    if d["t"] != "abelian":
        r = G.build(d)
        t = triple(r)
    else:
        n, k, dim = d["n"], d["k"], d["dim"]
        rs = np.random.RandomState(d["s"])
        X = np.stack([np.diag(rs.randint(-2, 3, dim).astype(float)) for _ in range(n)]) if n else np.zeros((0, dim, dim))
        H = np.stack([np.diag(rs.choice([-1.0, 1.0], dim)) for _ in range(k)]) if k else np.zeros((0, dim, dim))
        t = (np.zeros((n, n, n)), X, H)
        r = lie.GenericRep(*t)
    return r, t


def alter(r, t, a):
    """another representation, of a group of another presentation"""
    import lie_nn as lie

    A, X, H = t
    d = X.shape[1]
    if a == "none":
        return r, t
    if a == "generic":
        return lie.GenericRep(A, X, H), t
    if a == "extra":  # one more discrete generator
        t = (A, X, np.concatenate([H, np.eye(d)[None]]))
    elif a == "fewer":
        t = (A, X, H[:-1])
    elif a == "scaled":
        t = (1.5 * A, 1.5 * X, H)
    elif a == "flip":
        s = np.ones(len(X))
        s[:1] = -1
        t = (np.einsum("i,j,ijk,k->ijk", s, s, A, s), np.einsum("i,iab->iab", s, X), H)
    elif a == "perm":
        p = np.roll(np.arange(len(X)), 1)
        p[:2] = p[:2][::-1]
        t = (A[np.ix_(p, p, p)], X[p], H)
    elif a == "small":  # one structure constant is off by a little
        B = np.array(A, dtype=float)
        if B.size:
            B.flat[np.argmax(np.abs(B))] *= 1.01
        t = (B, X, H)
    elif a == "direct":  # one more commuting generator
        n = len(X)
        B = np.zeros((n + 1,) * 3, dtype=A.dtype)
        B[:n, :n, :n] = A
        t = (B, np.concatenate([X, np.zeros((1, d, d))]), H)
    return lie.GenericRep(*t), t


def same_group(t1, t2):
    A, B = t1[0], t2[0]
    if A.shape != B.shape or len(t1[2]) != len(t2[2]):
        return False
    if A.size == 0:
        return True
    e = float(np.max(np.abs(A - B)))
    if 1e-9 < e < 1e-3:
        return None
    return e <= 1e-9


def check_pair(case, ctx):
    import lie_nn as lie

    r1, t1 = make(case["a"])
    r2, t2 = make(case["b"])
    r2, t2 = alter(r2, t2, case["alter"])
    if case["swap"]:
        r1, t1, r2, t2 = r2, t2, r1, t1
    same = same_group(t1, t2)
    if same is None:
        return
    ops = dict(
        direct_sum=lambda: lie.direct_sum(r1, r2),
        infer_change_of_basis=lambda: lie.infer_change_of_basis(r1, r2),
        from_irreps=lambda: lie.ReducedRep.from_irreps([(1, r1), (2, r2)]),
        from_multiples=lambda: lie.ReducedRep.from_irreps([lie.MulIrrep(2, r1), r2]),
    )
    tab = isinstance(r1, lie.TabulatedIrrep) and isinstance(r2, lie.TabulatedIrrep)
    red = isinstance(r1, (lie.MulIrrep, lie.ReducedRep, lie.TabulatedIrrep)) and isinstance(r2, (lie.MulIrrep, lie.ReducedRep, lie.TabulatedIrrep))
    g1 = G.group_of(case["a"]) if case["a"]["t"] != "abelian" else "abelian"
    g2 = G.group_of(case["b"]) if case["b"]["t"] != "abelian" else "abelian"
    if not (same and red) or (g1 == g2 and ok_su2real(case["a"]) and ok_su2real(case["b"])):
        if r1.dim * r2.dim <= 40:
            ops["tensor_product"] = lambda: lie.tensor_product(r1, r2)
            if not tab:
                ops["clebsch_gordan"] = lambda: lie.clebsch_gordan(r1, r2, lie.GenericRep.from_rep(r1))
    ctx.label("same group" if same else f"{g1}/{g2}" if g1 != g2 else case["alter"])
    ctx.nontrivial(not same)
    for name, f in ops.items():
        if same:
            f()
        else:
            require(raises(f), f"{name} accepted {r1} and {r2} of different groups")
    for r, t in ((r1, t1), (r2, t2)):
        O.same_dense(r, t, "operand", 1e-9)
    if tab and type(r1) is not type(r2) and g1 in ("SU2", "SU2Real", "SO3", "O3", "Z2"):
        require(raises(lambda: list(r1 * r2)), f"{r1} * {r2} accepted")


# ---------------------------------------------------------------- labels of different families
def family(g, l):
    import importlib

    return importlib.import_module("lie_nn._src.irreps.sun").SUN(tuple(l)) if g == "SUN" else G.mk(g, l)


def check_labels_together(case, ctx):
    """Couplings of three labels: only within one group, and then all of them."""
    import lie_nn as lie

    rs = [family(*x) for x in case["rs"]]
    ts = [triple(r) for r in rs]
    same = [same_group(ts[0], t) for t in ts[1:]]
    require(None not in same, "structure constants of two groups that nearly agree")
    names = [x[0] for x in case["rs"]]
    ctx.nontrivial(len(set(names)) > 1)
    ctx.label("one group" if all(same) else "different groups")
    if not all(same):
        require(raises(lambda: lie.clebsch_gordan(*rs)), f"clebsch_gordan accepted {rs}")
    elif not any(n == "SU2Real" and x[1][0] % 2 for n, x in zip(names, case["rs"])):
        try:
            cg = lie.clebsch_gordan(*rs)
        except Exception:
            if sum("*" in n for n in set(names)) < 2:
                raise
            return  # the same group, but by other factors: may be refused
        O.has_shape(cg, (len(cg),) + tuple(r.dim for r in rs), "cg")
        want = hom_dim(ts)
        require(len(cg) == want, f"clebsch_gordan of {rs}: {len(cg)} solutions, expected {want}")
        require(O.cg_residual(cg, *ts) <= 1e-5 * O.scale_of(*ts) * mat_scale(cg), f"clebsch_gordan of {rs} is not equivariant")
    a, b = rs[:2]
    sun = {"SU2_", "SU3", "SU4", "SUN"}
    if not same[0] or names[0] != names[1] and not set(names[:2]) <= sun:
        require(raises(lambda: list(a * b)), f"{a} * {b} accepted")
        if not same[0]:
            require(raises(lambda: lie.reduced_tensor_product_basis("ij", i=a, j=b)), f"reduced product of {a} and {b} accepted")
            require(raises(lambda: lie.reduced_tensor_product_basis([a, lie.MulIrrep(2, b)])), f"reduced product of {a} and 2 x {b} accepted")
            require(raises(lambda: lie.tensor_product(a, b)), f"tensor product of {a} and {b} accepted")
            require(raises(lambda: lie.tensor_product(lie.MulIrrep(2, a), b)), f"tensor product of 2 x {a} and {b} accepted")
            require(raises(lambda: lie.tensor_product(a, lie.ReducedRep.from_irreps([b, b]))), f"tensor product of {a} and {b} + {b} accepted")


def hom_dim(ts):
    """dimension of the space of couplings"""
    (_, X1, H1), (_, X2, H2), (_, X3, H3) = ts
    d1, d2, d3 = X1.shape[1], X2.shape[1], X3.shape[1]
    rows = []
    for x, y, z in zip(X1, X2, X3):
        m = np.kron(x, np.eye(d2)) + np.kron(np.eye(d1), y)
        rows.append(np.kron(z, np.eye(d1 * d2)) - np.kron(np.eye(d3), m.T))
    for x, y, z in zip(H1, H2, H3):
        rows.append(np.kron(z, np.eye(d1 * d2)) - np.kron(np.eye(d3), np.kron(x, y).T))
    n = d1 * d2 * d3
    if not rows:
        return n
    s = np.linalg.svd(np.concatenate(rows), compute_uv=False)
    require(not np.any((s > 1e-7) & (s < 1e-3)), "the rank is not clear")
    return int(np.sum(s <= 1e-7)) + n - len(s)


ALIKE = [["SO3", "SU2", "SU2Real"], ["O3", "SU2*Z2", "Z2*SO3"], ["SU3", "SUN"], ["SU2_", "SUN"], ["SU4", "SUN"]]


@st.composite
def st_together(draw, tier):
    k = draw(st.integers(0, 2))
    fam = draw(st.sampled_from(ALIKE))
    rs = []
    g0 = draw(st.sampled_from(G.REPGROUPS))
    for i in range(3):
        if k == 0:
            g = draw(st.sampled_from(fam))
            n = fam[0] if g == "SUN" else g
        else:
            g = draw(st.sampled_from([g0, g0, draw(st.sampled_from(G.REPGROUPS + ["SUN"] * 3))]))
            n = draw(st.sampled_from(["SU2_", "SU3", "SU4"])) if g == "SUN" else g
        rs.append([g, draw(G.st_label(n, 4))])
    return dict(rs=rs)


@st.composite
def st_pair(draw, tier):
    def one(g):
        k = draw(st.integers(0, 11))
        if k == 0:
            return dict(t="abelian", n=draw(st.integers(0, 3)), k=draw(st.integers(0, 2)), dim=draw(st.integers(1, 3)), s=draw(st.integers(0, 99)))
        if k == 1:
            return draw(G.st_fin(maxdim=4))
        return draw(rep_of(g, dict(SU4=6, SO13=4, SU3=6).get(g, 5)))

    g1 = draw(st.sampled_from(G.REPGROUPS))
    g2 = draw(st.one_of(st.just(g1), st.sampled_from(G.REPGROUPS)))
    a, b = one(g1), one(g2)
    alt = draw(st.sampled_from(["none", "none", "generic", "extra", "fewer", "scaled", "flip", "perm", "small", "direct"]))
    return dict(a=a, b=b, alter=alt, swap=draw(st.booleans()))


# ---------------------------------------------------------------- labels
def valid(g, l):
    if g == "SU2":
        return isinstance(l[0], int) and l[0] >= 0
    if g == "SU2Real":
        return float(2 * l[0]).is_integer() and l[0] >= 0
    if g in ("SO3", "O3", "Z2"):
        return (g == "Z2" or l[0] >= 0) and (g == "SO3" or l[-1] in (1, -1))
    if g in ("SL2C", "SO13"):
        return all(isinstance(x, int) and x >= 0 for x in l) and (g == "SL2C" or sum(l) % 2 == 0)
    n = dict(SU2_=2, SU3=3, SU4=4)[g]
    return len(l) == n and all(a >= b for a, b in zip(l, l[1:])) and l[-1] == 0


def check_label(case, ctx):
    import lie_nn as lie

    g, l = case["g"], case["l"]
    cls = getattr(lie.irreps, g)
    arg = [tuple(l)] if g in ("SU2_", "SU3", "SU4") else l
    ok = valid(g, l)
    ctx.nontrivial(not ok)
    ctx.label(f"{g} {'valid' if ok else 'invalid'}")
    if ok:
        cls(*arg)
    else:
        require(raises(lambda: cls(*arg)), f"{g}{tuple(l)} accepted")
    if g in ("SU2_", "SU3", "SU4"):
        require(raises(lambda: cls(list(l))), f"{g} accepts a list")
    if g in ("SO3", "O3", "Z2"):
        if ok:
            require(cls.from_string(G.text_of(g, l)) == cls(*arg), f"{g} {l}")
        elif g != "Z2" and l[0] < 0:
            require(raises(lambda: cls.from_string(f"{l[0]}" + ("" if g == "SO3" else "e"))), f"{g} accepts the text of {l}")
    elif g not in ("SU2", "SU2Real"):
        # the text form goes through the same door
        text = "(" + ",".join(str(x) for x in l) + ")"
        if ok:
            require(cls.from_string(text) == cls(*arg), f"{g} {text}")
        else:
            require(raises(lambda: cls.from_string(text)), f"{g} accepts {text!r}")


@st.composite
def st_lab(draw, tier):
    g = draw(st.sampled_from(["SU2", "SU2Real", "SL2C", "SO13", "SU2_", "SU3", "SU4", "SO3", "O3", "Z2"]))
    if g in ("SO3", "O3", "Z2"):
        p = draw(st.one_of(st.sampled_from([1, -1]), st.integers(-3, 3)))
        el = draw(st.integers(-4, 9))
        l = dict(SO3=[el], O3=[el, p], Z2=[p])[g]
    elif g == "SU2":
        l = [draw(st.one_of(st.integers(-4, 9), st.sampled_from([0.5, 1.5, 2.0])))]
    elif g == "SU2Real":
        l = [draw(st.sampled_from([0, 0.5, 1, 1.0, 1.5, 2, 2.5, -0.5, -1, 0.25, 0.3, 1.75, 3, -2.0, 1.1]))]
    elif g in ("SL2C", "SO13"):
        el = st.one_of(st.integers(-2, 6), st.integers(0, 5), st.sampled_from([0.5, 1.5]))
        l = [draw(el), draw(el)]
    else:
        n = dict(SU2_=2, SU3=3, SU4=4)[g]
        n = draw(st.sampled_from([n, n, n, n, n - 1, n + 1]))
        l = draw(st.lists(st.integers(0, 5), min_size=n, max_size=n))
        if draw(st.booleans()):
            l = sorted(l, reverse=True)
        if draw(st.booleans()) and l:
            l[-1] = 0
        if l and draw(st.integers(0, 9)) == 0:
            l[-1] = -1
    return dict(g=g, l=l)


# ---------------------------------------------------------------- malformed text
def check_text(case, ctx):
    import lie_nn as lie

    g, s = case["g"], case["s"]
    cls = getattr(lie.irreps, g)
    ctx.nontrivial()
    ctx.label(g)
    require(raises(lambda: cls.from_string(s)), f"{g}.from_string({s!r}) accepted")
    require(raises(lambda: lie.MulIrrep.from_string(s, cls)), f"MulIrrep {s!r}")
    require(raises(lambda: lie.MulIrrep.from_string("2x" + s, cls)), f"MulIrrep 2x{s!r}")
    good = G.text_of(g, case["l"])
    for tail in ("x", ")", "(", "2", ",", good, " " + good, "e", "+")[: None if g[0] == "S" and g not in ("SO3", "SU2") else 0]:
        # labels in parentheses are read to the end
        require(raises(lambda: cls.from_string(good + tail)), f"{g}.from_string({good + tail!r}) accepted")
        require(raises(lambda: cls.from_string(tail + good)), f"{g}.from_string({tail + good!r}) accepted")
    for other in ("SO3", "O3", "Z2", "SL2C", "SU3", "SU4"):
        if cls.__name__ not in dict(SL2C=["SL2C", "SO13", "SU2_"], SO3=["SO3", "SU2"]).get(other, [other]):
            t = G.text_of(other, G.labels(other, 10)[-1])
            if not (other == "Z2" and g == "O3" or other == "O3" and g == "Z2"):
                require(raises(lambda: cls.from_string(t)), f"{g} reads {t!r}, a label of {other}")
    for text in (f"2x{good}+{s}", f"{s} + {good}", f"{good}++{good}", f"+{good}", f"{good}+", f"x{good}", f"2.5x{good}", f"-1x{good}", f"2x3x{good}", ""):
        require(raises(lambda: lie.ReducedRep.from_string(text, cls)), f"ReducedRep.from_string({text!r}, {g}) accepted")
    lie.ReducedRep.from_string(f"2x{good}+{good}", cls)


BAD = dict(
    SO3=["", "-1", "-2", "a", "e", "1.5", "(1)", "1,2", "1e", "--1", "one"],
    SU2=["", "a", "1/2", "0.5", "(1)", "1,2", "1o"],
    O3=["", "-1e", "-2o", "1", "e", "1x", "1E", "e1", "1ee", "(1,1)", "1.5e", "1 +"],
    Z2=["", "1", "-1", "E", "x", "ee", "e o", "0"],
    SL2C=["", "1", "1,2", "(1)", "(a,b)", "(1;2)", "(-1,0)", "(1,2", "(1.5,0)", "[1,0]", "(,)", "(1,)"],
    SO13=["", "1", "1,1", "(1)", "(1,0)", "(0,3)", "(a,b)", "(-1,1)", "(1,1", "(0.5,0.5)", "[1,1]"],
    SU2_=["", "1", "(1)", "(1,0,0)", "(0,1)", "(1,1)", "1,0", "(a,0)", "(-1,0)", "[1,0]", "(1,0", "()"],
    SU3=["", "1", "(1,0)", "(1,0,0,0)", "(0,1,0)", "(1,1,1)", "1,0,0", "(1,a,0)", "(1,0,0", "(2,-1,0)", "()"],
    SU4=["", "(1,0,0)", "(1,0,0,0,0)", "(0,1,0,0)", "(1,1,1,1)", "1,0,0,0", "(1,0,1,0)", "(1,0,0,0", "()"],
)


@st.composite
def st_text(draw, tier):
    g = draw(st.sampled_from(sorted(BAD)))
    return dict(g=g, s=draw(st.sampled_from(BAD[g])), l=draw(G.st_label(g, 10)))


def sweep_text(tier):
    return [dict(g=g, s=s, l=list(G.labels(g, 10)[-1])) for g in sorted(BAD) for s in BAD[g]]


# ---------------------------------------------------------------- shapes
def check_shape(case, ctx):
    import lie_nn as lie

    r = case["r"]
    rep, t = G.build(r), G.dense(r)
    n = rep.dim
    ctx.nontrivial()
    ctx.label(case["what"])
    bad = np.eye(n + 1)
    w = case["what"]
    if w == "basis":
        require(raises(lambda: triple(lie.change_basis(rep, bad))), "change_basis with a matrix of the wrong size")
    elif w == "algebra":
        if len(t[0]):
            require(raises(lambda: lie.change_algebra(rep, np.eye(len(t[0]) + 1))), "change_algebra with a matrix of the wrong size")
    elif w == "exp":
        a = np.zeros(len(t[0]) + 1 + (len(t[0]) == 0))
        k = np.zeros(len(t[2]), dtype=int)
        require(raises(lambda: rep.exp_map(a, k)), "exp_map with too many parameters")
    elif w == "from":
        require(raises(lambda: lie.ReducedRep.from_irreps([rep], bad)), "from_irreps with a matrix of the wrong size")
        require(raises(lambda: lie.ReducedRep.from_irreps([rep], np.zeros((n, n + 1)))), "from_irreps with a rectangular matrix")
        require(raises(lambda: lie.ReducedRep.from_irreps([(-1, rep)])), "a negative multiplicity")
        require(raises(lambda: lie.ReducedRep.from_irreps([(1, rep), (-1, rep)])), "a negative multiplicity")
        require(raises(lambda: lie.ReducedRep.from_irreps([(2, rep), (-2, rep)])), "a negative multiplicity")
        require(raises(lambda: lie.ReducedRep.from_irreps([lie.MulIrrep(3, rep), lie.MulIrrep(-1, rep)])), "a negative multiplicity")
        require(raises(lambda: lie.ReducedRep.from_irreps([(1, "a")])), "a string")
        require(raises(lambda: lie.ReducedRep.from_irreps([(1, rep), (2, t[1])])), "an array")
    elif w == "intertwiner":
        X = O.gens(t)
        if len(X):
            require(raises(lambda: lie.util.infer_change_of_basis(X, np.concatenate([X, X]))), "a different number of matrices")
            require(raises(lambda: lie.util.infer_change_of_basis(X, np.zeros((len(X), n, n + 1)))), "rectangular matrices")
    elif w == "linear":
        for f in (lie.util.gram_schmidt, lie.util.nullspace):
            for x in (np.ones(n), np.ones((1, n, n)), np.ones((n, n), dtype=int)):
                require(raises(lambda: f(x)), f"{f.__name__} accepts an array {x.shape} {x.dtype}")
        a, b = np.ones((1, n)), np.ones((1, n + 1))
        require(raises(lambda: lie.util.basis_intersection(a, b)), "vectors of different size")
    elif w == "real":
        # a representation that is not equivalent to its conjugate has no real form
        m = np.exp(2j * np.pi * np.arange(1, 3) / 5)
        z5 = lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 1, 1)), m[:1, None, None])
        require(raises(lambda: lie.make_explicitly_real(z5)), "a complex character has no real form")


@st.composite
def st_shape(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    return dict(r=draw(rep_of(g, dict(SU4=6, SO13=4).get(g, 6), types=("irrep", "mul", "red", "gen"))), what=draw(st.sampled_from(["basis", "algebra", "exp", "from", "intertwiner", "linear", "real"])))


def components(tier):
    return [
        Component("pairs", check_pair, "operands of different groups", strategy=st_pair, n=dict(quick=3000, thorough=15000)),
        Component("labels together", check_labels_together, "labels of different families", strategy=st_together, n=dict(quick=1200, thorough=6000)),
        Component("labels", check_label, "an invalid label", strategy=st_lab, n=dict(quick=2000, thorough=6000), shards=8),
        Component("text", check_text, "every case", strategy=st_text, n=dict(quick=400, thorough=2000), sweep=sweep_text, shards=8),
        Component("shapes", check_shape, "every case", strategy=st_shape, n=dict(quick=1000, thorough=4000), shards=8),
    ]
