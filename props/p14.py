"""infer_change_of_basis finds all intertwiners."""
from .repcases import *

ASSUMPTIONS = ["condition number of the bases below about 6; singular values of the linear system away from the threshold"]


def check_solutions(S, X1, X2, d1, d2, n, what, tol):
    """S[z]: (d2, d1), intertwines, orthogonal with squared norm d2, n of them."""
    O.has_shape(S, (n, d2, d1), f"{what}: change of basis")
    for x1, x2 in zip(X1, X2):
        close(np.einsum("ab,zbc->zac", x2, S), np.einsum("zab,bc->zac", S, x1), f"{what}: intertwiner", tol, mat_scale(x1, x2) * mat_scale(S))
    G_ = np.einsum("zij,wij->zw", np.conj(S), S)
    close(G_, d2 * np.eye(n), f"{what}: orthogonality", tol, d2)


def multiplicity(c1, c2):
    return sum(m * c2.get(l, 0) for l, m in c1.items())


def check(case, ctx):
    import lie_nn as lie

    a, b = case["a"], case["b"]
    g = G.group_of(a)
    ra, rb = G.build(a), G.build(b)
    da, db = G.dense(a), G.dense(b)
    d1, d2 = G.dim_of(a), G.dim_of(b)
    want = O.hom_dim(O.gens(da), O.gens(db))
    if g != "SU2Real":
        m = multiplicity(G.content(a), G.content(b))
        require(m == want, f"oracle: Schur {m}, singular values {want}")
    ctx.nontrivial(want > 0 and d1 > 1 and d2 > 1)
    ctx.label(f"{min(want, 5)} solutions")
    S = lie.infer_change_of_basis(ra, rb)
    tol = 1e-6
    check_solutions(S, O.gens(da), O.gens(db), d1, d2, want, "rep1 -> rep2", tol)
    real = not any(np.iscomplexobj(x) for r in (ra, rb) for x in (r.X, r.H))
    if real:
        require(not np.iscomplexobj(S), "complex solution for real representations")
    # the other direction has as many solutions
    T = lie.infer_change_of_basis(rb, ra)
    check_solutions(T, O.gens(db), O.gens(da), d2, d1, want, "rep2 -> rep1", tol)
    O.same_dense(ra, da, "operand", TOL.get(g, 1e-8))
    O.same_dense(rb, db, "operand", TOL.get(g, 1e-8))


@st.composite
def st_case(draw, tier):
    kinds = G.QKINDS
    if draw(st.integers(0, 9)) < 4:
        a = draw(G.st_fin(maxdim=5, shapes=G.ALL_SHAPES))
        b = draw(G.st_fin(maxdim=5, groups=(a["g"],), shapes=G.ALL_SHAPES))
        return dict(a=a, b=b)
    g = draw(st.sampled_from(G.REPGROUPS))
    m = dict(SU4=5, SU3=6, SO13=6).get(g, 7)
    if tier == "thorough":
        m += 2
    a = draw(rep_of(g, m, kinds=kinds))
    how = draw(st.integers(0, 3))
    if how == 0:
        b = draw(rep_of(g, m, kinds=kinds))
    elif how == 1:  # the same in another basis
        b = dict(t="gen", r=a, Q=draw(G.st_qz()))
    else:  # shares irreps with a
        labs = sorted(G.content(a))
        terms = []
        left = m
        for l in draw(st.permutations(labs)):
            d = O.label_dim(g, l)
            if d <= left:
                k = draw(st.integers(1, min(2, left // d)))
                terms.append([k, dict(t="irrep", g=g, l=list(l))])
                left -= k * d
        if not terms:
            terms = [[1, dict(t="irrep", g=g, l=draw(G.st_label(g, m)))]]
        elif left and draw(st.booleans()):
            terms.append([1, dict(t="irrep", g=g, l=draw(G.st_label(g, left)))])
        Q = draw(st.one_of(st.none(), G.st_qz()))
        b = dict(t="red", r=terms, Q=Q)
        if draw(st.booleans()):
            b = dict(t="gen", r=b, Q=draw(G.st_qz()))
    return dict(a=a, b=b)


def check_recover(case, ctx):
    """The change of basis between two forms of an irrep is found up to a factor."""
    import lie_nn as lie

    r = case["r"]
    g = G.group_of(r)
    rep = G.build(r)
    d = G.dim_of(r)
    Q = G.build_q(case["Q"], d)
    other = lie.change_basis(rep, Q)
    ctx.nontrivial(d > 1 and case["Q"]["k"] != "id")
    fn = (lambda x: x) if not case["round"] else lie.util.round_to_sqrt_rational
    if case["round"] and case["Q"]["k"] not in ("id", "perm"):
        fn = lambda x: x  # noqa: E731
    S = lie.infer_change_of_basis(rep, other, round_fn=fn)
    require(S.shape == (1, d, d), f"an irrep and the same in another basis: shape {S.shape}")
    S = S[0]
    c = np.vdot(Q, S) / np.vdot(Q, Q)
    close(S, c * Q, "S is a multiple of Q", 1e-6, mat_scale(Q))
    back = lie.change_basis(rep, S)
    O.same_dense(back, triple(other), "change_basis with the inferred matrix", 1e-6)


@st.composite
def st_recover(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    m = dict(SU4=10, SU3=10, SO13=9).get(g, 12)
    r = draw(G.st_irrep([g], m).filter(ok_su2real))
    return dict(r=r, Q=draw(G.st_qz()), round=draw(st.booleans()))


def check_matrices(case, ctx):
    """The matrix level function: X1 S = S X2, for sets of matrices that are no representation."""
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    n, d1, d2, k = case["n"], case["d1"], case["d2"], case["k"]
    k = min(k, d1, d2)
    f = (lambda *s: rs.normal(size=s) + 1j * rs.normal(size=s)) if case["c"] else (lambda *s: rs.normal(size=s))
    # a common block of size k (generic, hence irreducible), the rest unrelated
    C = f(n, k, k)

    def embed(d):
        X = np.zeros((n, d, d), dtype=C.dtype)
        X[:, :k, :k] = C
        X[:, k:, k:] = f(n, d - k, d - k) + 3 * (1 if d == d1 else -1) * np.eye(d - k)
        Q = G.build_q(dict(k="unitary" if case["c"] else "rot", s=int(rs.randint(1000))), d)
        return Q @ X @ np.conj(Q.T)

    X1, X2 = embed(d1), embed(d2)
    s = np.linalg.svd(np.concatenate([np.kron(a, np.eye(d2)) - np.kron(np.eye(d1), b.T) for a, b in zip(X1, X2)]), compute_uv=False)
    full = np.concatenate([s, np.zeros(max(0, d1 * d2 - len(s)))])
    if np.any((full > 1e-7) & (full < 0.05)):
        return  # too close to the threshold of the algorithm
    want = int(np.sum(full <= 1e-7))
    ctx.nontrivial(want > 0 and k > 1)
    ctx.label(f"{want} solutions")
    S = lie.util.infer_change_of_basis(X1, X2)
    require(S.shape == (want, d1, d2), f"shape {S.shape}, expected {want} solutions")
    for a, b in zip(X1, X2):
        close(np.einsum("ab,zbc->zac", a, S), np.einsum("zab,bc->zac", S, b), "X1 S = S X2", 1e-6, mat_scale(a, b))
    close(np.einsum("zij,wij->zw", np.conj(S), S), np.eye(want), "orthonormal", 1e-7)
    if n == 1:
        T = lie.util.infer_change_of_basis(X1[0], X2[0])
        close(np.einsum("zij,zkl->ijkl", T, np.conj(T)), np.einsum("zij,zkl->ijkl", S, np.conj(S)), "single matrices", 1e-6)


@st.composite
def st_matrices(draw, tier):
    return dict(
        n=draw(st.integers(1, 3)), d1=draw(st.integers(1, 5)), d2=draw(st.integers(1, 5)),
        k=draw(st.integers(0, 4)), c=draw(st.booleans()), s=draw(st.integers(0, 10**6)),
    )


def dec(x):
    """a rounding function that commutes with nothing in particular: 9 decimals"""
    return np.round(x, 9)


def check_rounding(case, ctx):
    """The result is rounded with the function given; solutions are as many and as good as without."""
    import lie_nn as lie

    a, b = case["a"], case["b"]
    ra, rb = G.build(a), G.build(b)
    da, db = G.dense(a), G.dense(b)
    d1, d2 = G.dim_of(a), G.dim_of(b)
    want = O.hom_dim(O.gens(da), O.gens(db))
    ctx.nontrivial(want > 0 and d1 > 1 and d2 > 1)
    seen = []

    def fn(x):
        seen.append(1)
        return dec(x)

    S = lie.infer_change_of_basis(ra, rb, round_fn=fn)
    check_solutions(S, O.gens(da), O.gens(db), d1, d2, want, "rounded", 1e-6)
    require(seen, "round_fn is not used")
    require(np.array_equal(S, dec(S)), "infer_change_of_basis: the result is not rounded")
    if d1 * d2 <= 16 and d1 * d2 * max(d1, d2) <= 60:
        T = lie.clebsch_gordan(ra, rb, lie.GenericRep.from_rep(ra), round_fn=fn)
        U = lie.clebsch_gordan(ra, rb, lie.GenericRep.from_rep(ra))
        require(T.shape == U.shape, f"clebsch_gordan: {len(T)} rounded, {len(U)} exact")
        require(np.array_equal(T, dec(T)), "clebsch_gordan: the result is not rounded")
        if len(T):
            res = O.cg_residual(T, da, db, da)
            require(res <= 1e-6 * O.scale_of(da, db, da) * mat_scale(T), f"clebsch_gordan rounded: residual {res:.3g}")


@st.composite
def st_rounding(draw, tier):
    c = draw(st_case(tier).filter(lambda c: G.dim_of(c["a"]) * G.dim_of(c["b"]) <= 36 and G.group_of(c["a"]) != "SU4" and ok_su2real(c["a"]) and ok_su2real(c["b"])))
    return c


def sweep_large(tier):
    """Linear systems with hundreds of unknowns."""
    q = tier == "quick"
    reps = [r for r in big_reps(True) if G.dim_of(r) <= (30 if q else 40)]
    out = []
    for i, a in enumerate(reps):
        out.append((a, dict(t="gen", r=a, Q=dict(k="rot", s=i)) if a["t"] != "fin" else dict(a, Q=dict(k="cdense", s=i))))
    small = [
        (big("SO3", (2, [2], 1, [4], 1, [6]), "dense"), big("SO3", (3, [0], 2, [2], 1, [4]))),
        (big("SU2", (1, [25]), t="irrep"), big("SU2", (1, [24]), t="irrep")),
        (big("SU2", (1, [25]), t="irrep"), big("SU2", (1, [25]), "unitary", "gen")),
        (big("Z2", (15, [-1], 5, [1]), "dense"), big("Z2", (4, [-1], 20, [1]), "rot", "gen")),
        (big("Z2", (23, [1], 1, [-1]), "dense"), big("Z2", (2, [-1], 25, [1]), "rot", "gen")),
        (big("SO3", (20, [0], 1, [1]), "rot"), big("SO3", (1, [1], 22, [0]), "dense", "gen")),
        (big("SU2", (9, [1], 1, [0]), "unitary"), big("SU2", (10, [1]), "dense", "gen")),
        (big("SL2C", (1, [4, 0], 2, [1, 1], 1, [0, 2]), "unitary", "gen"), big("SL2C", (2, [1, 1], 1, [4, 0], 2, [0, 2]))),
    ]
    return [dict(a=a, b=b) for a, b in out + small if G.dim_of(a) * G.dim_of(b) <= (700 if q else 1700)]


def components(tier):
    return [
        Component("large", check, "pairs of representations of dimension > 1 with a common irrep", sweep=sweep_large),
        Component("rounding", check_rounding, "pairs of representations of dimension > 1 with a common irrep", strategy=st_rounding, n=dict(quick=500, thorough=1500)),
        Component("representations", check, "pairs of representations of dimension > 1 with a common irrep", strategy=st_case, n=dict(quick=1500, thorough=4000)),
        Component("recover", check_recover, "irreps of dimension > 1 in a different basis", strategy=st_recover, n=dict(quick=1000, thorough=2500)),
        Component("matrices", check_matrices, "a common block of size > 1", strategy=st_matrices, n=dict(quick=1500, thorough=4000)),
    ]
