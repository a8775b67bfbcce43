"""Structure constants from matrices, and the consistency checks the library offers."""
from .repcases import *

ASSUMPTIONS = ["sets of matrices that are closed under commutators up to rounding, or clearly not"]


def bracket(X):
    return np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X)


def closed(X):
    """distance of the commutators to the span, relative"""
    n = len(X)
    if n == 0:
        return 0.0, 1.0
    x = X.reshape(n, -1)
    C = bracket(X).reshape(n * n, -1)
    s = np.linalg.svd(x, compute_uv=False)
    R = C - C @ np.linalg.pinv(x, rcond=1e-9) @ x
    return float(np.max(np.abs(R))) / (1 + mat_scale(C)), float(s[-1] / max(s[0], 1e-300))


def check_infer(case, ctx):
    import lie_nn as lie

    r = case["r"]
    dense = G.dense(r)
    A, X, H = dense
    n = len(X)
    if n and case["P"] is not None:
        A, X, H = O.d_algebra(dense, G.build_q(case["P"], n))
    X = np.asarray(X, dtype=np.complex128)
    if case["real"] and not np.any(X.imag):
        X = X.real.copy()
    drop = case["drop"]
    if drop and n:
        keep = [i for i in range(n) if not (drop >> (i % 8)) & 1]
        X = X[keep]
    n = len(X)
    err, cond = closed(X)
    if 1e-11 < err < 1e-4 or 1e-9 < cond < 1e-3:
        return
    X0 = X.copy()
    got = lie.util.infer_algebra_from_generators(X)
    require(np.array_equal(X, X0), "argument modified")
    rep = lie.GenericRep.from_generators(X)
    ctx.label(G.group_of(r) + (" closed" if err < 1e-9 else " not closed"))
    ctx.nontrivial(n > 1 and np.any(bracket(X)))
    if err > 1e-6:
        require(got is None and rep is None, f"not closed under commutators, but an algebra was returned")
        return
    require(got is not None and rep is not None, "closed under commutators, but no algebra was found")
    O.has_shape(got, (n, n, n), "algebra")
    close(np.einsum("ijk,kab->ijab", got, X), bracket(X), "[X_i, X_j] = A_ijk X_k", 1e-8, mat_scale(X) ** 2 * 4)
    if cond > 1e-3 and n == len(A):
        close(got, A, "structure constants", 1e-6)
        if not np.any(np.iscomplex(A)):
            require(not np.iscomplexobj(got), "the structure constants are real")
    if n:
        # whatever the scale of the generators, and whether it is real or not
        sc = case["sc"][0] * np.exp(1j * case["sc"][1])
        if case["sc"][1] == 0:
            sc = sc.real
        rr = lie.util.infer_algebra_from_generators(X * sc)
        require(rr is not None, "rescaled generators")
        close(rr, got * sc, "structure constants of rescaled generators", 1e-7, abs(sc) * (1 + np.max(np.abs(got))))
    d = X.shape[1]
    O.has_shape(rep.discrete_generators(), (0, d, d), "H")
    require(np.array_equal(rep.continuous_generators(), X), "X")
    close(rep.algebra(), got, "A", 1e-12)
    require(rep.dim == d and rep.lie_dim == n, "dim")
    rep.check_algebra_vs_generators(rtol=1e-8, atol=1e-8)
    rep2 = lie.GenericRep.from_generators(X, H)
    close(rep2.discrete_generators(), H, "H", 1e-12)
    t = rep2.create_trivial()
    require(t.dim == 1 and t.lie_dim == n and not np.any(t.X) and np.array_equal(t.H, np.ones((len(H), 1, 1))), "create_trivial")


@st.composite
def st_infer(draw, tier):
    m = 8 if tier == "quick" else 14
    g = draw(st.sampled_from([g for g in G.REPGROUPS if g != "Z2"] + ["Z2"]))
    r = draw(rep_of(g, m, kinds=["id", "perm", "diag", "shear", "givens", "rot", "cdiag", "unitary"]))
    kinds = ["id", "perm", "diag", "shear", "givens", "rot"] + (["cdiag", "unitary"] if draw(st.booleans()) else [])
    return dict(r=r, P=draw(st.one_of(st.none(), G.st_q(kinds))), real=draw(st.booleans()), drop=draw(st.sampled_from([0, 0, 0, 1, 2, 4, 8, 3, 5, 129, 254, 6])),
                sc=[draw(st.sampled_from([10.0, 1.0, 0.1, 3.0])), draw(st.sampled_from([0, 0.0, 1e-2, 1e-4, 1.0, np.pi / 2]))])


def check_random(case, ctx):
    """Matrices that are no Lie algebra, and small algebras that are not reductive."""
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    kind, d = case["kind"], case["d"]
    c = 1j if case["c"] else 0
    if kind == "generic":
        n = case["n"]
        X = rs.normal(size=(n, d, d)) + c * rs.normal(size=(n, d, d))
    else:
        E = lambda i, j: np.outer(np.eye(d)[i], np.eye(d)[j])
        if kind == "upper":
            idx = [(i, j) for i in range(d) for j in range(i, d)]
        elif kind == "strict":
            idx = [(i, j) for i in range(d) for j in range(i + 1, d)]
        elif kind == "diagonal":
            idx = [(i, i) for i in range(d)]
        else:
            idx = [(i, j) for i in range(d) for j in range(d)]
        X = np.array([E(*p) for p in idx]).reshape(len(idx), d, d)
        n = len(X)
        Q = G.build_q(dict(k="unitary" if case["c"] else "rot", s=case["s"]), d)
        P = G.build_q(dict(k="rot", s=case["s"] + 1), n)
        X = np.einsum("ij,jab->iab", P, Q @ X @ np.conj(Q.T)) if n else X
    err, cond = closed(X)
    if 1e-11 < err < 1e-4 or cond < 1e-3:
        return
    ctx.label(kind)
    ctx.nontrivial(n > 1)
    got = lie.util.infer_algebra_from_generators(X)
    if err > 1e-6:
        require(got is None, "not closed, but an algebra was returned")
        return
    require(got is not None, "closed, but no algebra was found")
    x = X.reshape(n, d * d)
    want = bracket(X).reshape(n, n, d * d) @ np.linalg.pinv(x) if n else np.zeros((0, 0, 0))
    close(got, want, "structure constants", 1e-8)


@st.composite
def st_random(draw, tier):
    return dict(
        kind=draw(st.sampled_from(["generic", "upper", "strict", "diagonal", "full"])),
        d=draw(st.integers(1, 3)), n=draw(st.integers(1, 4)), c=draw(st.booleans()), s=draw(st.integers(0, 10**5)),
    )


def check_checker(case, ctx):
    """check_algebra_vs_generators accepts exactly the consistent pairs."""
    import lie_nn as lie

    r = case["r"]
    A, X, H = G.dense(r)
    n, d = len(X), X.shape[1]
    chk = lie.util.check_algebra_vs_generators
    tol = dict(rtol=1e-6, atol=1e-6)
    require(bool(chk(A, X, **tol)), "a representation is refused")
    chk(A, X, assert_=True, **tol)
    lie.GenericRep(A, X, H).check_algebra_vs_generators(**tol)
    if n == 0:
        return
    i, j, k = case["ijk"][0] % n, case["ijk"][1] % n, case["ijk"][2] % n
    B, Y = A.copy(), X.copy()
    if case["where"] == "A":
        B[i, j, k] += case["eps"]
    else:
        Y[i, case["ijk"][1] % d, case["ijk"][2] % d] += case["eps"]
    bad = np.max(np.abs(bracket(Y) - np.einsum("ijk,kab->ijab", B, Y)))
    if 1e-7 < bad < 1e-3:
        return
    ctx.nontrivial(bad > 1e-3)
    ok = bool(bad <= 1e-7)
    require(bool(chk(B, Y, **tol)) is ok, f"discrepancy {bad:.3g}: result {not ok}")
    bad_rep = lie.GenericRep(B, Y, H)
    require(raises(lambda: chk(B, Y, assert_=True, **tol), AssertionError) is not ok, "assert_")
    require(raises(lambda: bad_rep.check_algebra_vs_generators(**tol), AssertionError) is not ok, "method")
    require(bool(chk(B, Y, rtol=0, atol=2 * bad + 1e-6)), "tolerance ignored")


@st.composite
def st_checker(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    return dict(
        r=draw(rep_of(g, 7)), ijk=draw(st.tuples(*[st.integers(0, 14)] * 3).map(list)),
        where=draw(st.sampled_from("AX")), eps=draw(st.sampled_from([0.01, 0.3, -1.0])),
    )


def check_triplet(case, ctx):
    """check_representation_triplet accepts representations of one algebra and refuses the rest."""
    import lie_nn as lie

    rs = [case["a"], case["b"], case["c"]]
    g = G.group_of(rs[0])
    if not all(map(ok_su2real, rs)):
        return
    reps = [G.build(r) for r in rs]
    tol = dict(rtol=1e-5, atol=1e-5)
    chk = lie.check_representation_triplet
    ctx.nontrivial(all(r.dim > 1 for r in reps))
    chk(*reps, **tol)
    kind, at = case["kind"], case["at"]
    ctx.label(kind)
    A, X, H = (x.copy() for x in triple(reps[at]))
    if len(X) == 0:
        return
    if kind == "scaled":
        bad = lie.GenericRep(A, X * 1.5, H)
        if not np.any(X):
            return
    elif kind == "other algebra":
        bad = lie.GenericRep(A * 2, X * 2, H)
    elif kind == "entry":
        # the trace of a generator of a semisimple algebra vanishes
        X = X.astype(np.complex128)
        X[case["s"] % len(X)] += 0.5 * np.eye(X.shape[1])
        bad = lie.GenericRep(A, X, H)
    reps[at] = bad
    require(raises(lambda: chk(*reps, **tol), AssertionError), f"{kind}: accepted")


@st.composite
def st_triplet(draw, tier):
    g = draw(st.sampled_from(["SO3", "O3", "SU2", "SU2Real", "SL2C", "SU2_", "SU3", "SO13"]))
    m = dict(SU3=3, SO13=2).get(g, 5)
    return dict(
        a=draw(rep_of(g, m)), b=draw(rep_of(g, m)), c=draw(rep_of(g, m)),
        kind=draw(st.sampled_from(["scaled", "other algebra", "entry"])), at=draw(st.integers(0, 2)), s=draw(st.integers(0, 20)),
    )


def check_wrong_cg(case, ctx):
    """Coupling coefficients that are not equivariant are noticed."""
    import lie_nn as lie

    g = case["g"]
    a, b, c = (G.mk(g, l) for l in case["l"])
    cls = type(a)
    eps, s = case["eps"], case["s"]

    def clebsch_gordan(klass, r1, r2, r3):
        back = [cls(*[getattr(r, f) for f in r.__dataclass_fields__]) for r in (r1, r2, r3)]
        cg = np.array(cls.clebsch_gordan(*back))
        flat = cg.reshape(-1)
        flat[s % len(flat)] += eps
        return flat.reshape(cg.shape)

    sub = type(cls.__name__, (cls,), dict(clebsch_gordan=classmethod(clebsch_gordan)))
    x, y, z = (sub(*[getattr(r, f) for f in r.__dataclass_fields__]) for r in (a, b, c))
    cg = cls.clebsch_gordan(a, b, c)
    require(cg.shape[0] > 0, "forbidden triple")
    chk = lie.check_representation_triplet
    chk(a, b, c, rtol=1e-5, atol=1e-5)
    ctx.nontrivial(cg.size > 1)
    ctx.label("several solutions" if len(cg) > 1 else "one solution")
    if not case["eps"]:
        chk(x, y, z, rtol=1e-5, atol=1e-5)
        return
    wrong = clebsch_gordan(sub, a, b, c)
    if O.cg_residual(wrong, triple(a), triple(b), triple(c)) < 1e-2:
        return
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        ok = raises(lambda: chk(x, y, z, rtol=1e-5, atol=1e-5), AssertionError)
    require(ok, "a wrong coefficient is accepted")


# couplings with several solutions
MANY = [("SU3", [[2, 1, 0]] * 3)] + [
    ("SU2Real", [[j] for j in l]) for l in ([1, 1, 0], [1, 1, 2], [2, 1, 1], [1, 2, 1], [3, 1, 2], [1, 2, 3], [1, 1, 0], [3, 3, 0])
]


@st.composite
def st_wrong(draw, tier):
    if draw(st.integers(0, 3)) == 0:
        g, l = draw(st.sampled_from(MANY))
        return dict(g=g, l=l, eps=draw(st.sampled_from([0.5, -0.3, 0.0, 0.5])), s=draw(st.integers(0, 10**4)))
    g = draw(st.sampled_from(["SO3", "O3", "SU2", "SL2C", "SU3"]))
    m = dict(SU3=3).get(g, 5)
    l1, l2 = draw(G.st_label(g, m)), draw(G.st_label(g, m))
    l3 = draw(st.sampled_from(sorted(O.product(g, tuple(l1), tuple(l2)))))
    return dict(g=g, l=[l1, l2, list(l3)], eps=draw(st.sampled_from([0.5, -0.3, 0.0, 0.5])), s=draw(st.integers(0, 10**4)))


def components(tier):
    return [
        Component("infer", check_infer, "non-commuting generators", strategy=st_infer, n=dict(quick=2800, thorough=8000)),
        Component("matrices", check_random, "more than one matrix", strategy=st_random, n=dict(quick=2400, thorough=6000), shards=8),
        Component("checker", check_checker, "an inconsistent pair", strategy=st_checker, n=dict(quick=2000, thorough=6000)),
        Component("triplets", check_triplet, "three representations of dimension > 1", strategy=st_triplet, n=dict(quick=1000, thorough=3000)),
        Component("coefficients", check_wrong_cg, "more than one coefficient", strategy=st_wrong, n=dict(quick=800, thorough=2000), shards=8),
    ]
