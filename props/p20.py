"""Group elements: exp_map and its JAX counterpart."""
from .repcases import *

ASSUMPTIONS = [
    "continuous parameters of size at most 1.5 (40 for unitary matrices); discrete exponents between -3 and 4 (up to 2^20 in size for matrices of finite order)",
]


def adj(A, a):
    """matrix of exp(ad a): D(g) X_b D(g)^-1 = sum_c Ad[b, c] X_c"""
    import scipy.linalg as sla

    return sla.expm(np.einsum("a,abc->bc", np.asarray(a, dtype=float), A))


def check(case, ctx):
    r = case["r"]
    g = G.group_of(r)
    rep, dense = G.build(r), G.dense(r)
    A, X, H = dense
    n, m, d = len(X), len(H), G.dim_of(r)
    a = np.array(case["a"][:n])
    k = np.array(case["k"][:m], dtype=int)
    ctx.label(g)
    ctx.nontrivial(d > 1 and (np.any(a) or np.any(k)))
    tol = TOL.get(g, 1e-8) * 100
    D = rep.exp_map(a, k)
    want = O.d_exp(dense, a, k)
    sc = max(mat_scale(want), mat_scale(np.linalg.inv(want)) if d else 1)
    O.has_shape(D, (d, d), "exp_map")
    close(D, want, "exp_map", tol, sc)
    # lists are as good as arrays
    close(rep.exp_map(list(map(float, a)), [int(x) for x in k]), want, "exp_map of lists", tol, sc)
    # identity, inverse, one-parameter subgroup
    zero = np.zeros(m, dtype=int)
    close(rep.exp_map(np.zeros(n), zero), np.eye(d), "identity element", 1e-12)
    E = rep.exp_map(a, zero)
    close(E @ rep.exp_map(-a, zero), np.eye(d), "inverse element", tol, sc**2)
    s, t = case["st"]
    close(rep.exp_map(s * a, zero) @ rep.exp_map(t * a, zero), rep.exp_map((s + t) * a, zero), "one-parameter subgroup", tol, sc**4)
    # the adjoint action is that of the structure constants
    if n:
        Ad = adj(A, a)
        left = np.einsum("ij,bjk,kl->bil", E, X, np.linalg.inv(E))
        right = np.einsum("bc,cij->bij", Ad, X)
        close(left, right, "adjoint action", tol * 10, sc**2 * mat_scale(X, Ad))
    # group laws: two elements composed in the adjoint compose here
    b = np.array(case["b"][:n])
    F = rep.exp_map(b, zero)
    if n:
        Ad2 = adj(A, b) @ adj(A, a)  # of the product E F
        g2 = E @ F
        left = np.einsum("ij,bjk,kl->bil", g2, X, np.linalg.inv(g2))
        sc2 = mat_scale(g2) * mat_scale(np.linalg.inv(g2))
        close(left, np.einsum("bc,cij->bij", Ad2, X), "adjoint action of a product", tol * 10, sc2 * mat_scale(X) * mat_scale(Ad2))
    # discrete elements
    if m:
        P = np.eye(d)
        for i in range(m):
            e = np.zeros(m, dtype=int)
            e[i] = k[i]
            P = P @ rep.exp_map(np.zeros(n), e)
        close(P @ E, D, "discrete elements come first, in order", tol, sc * mat_scale(P))
    O.same_dense(rep, dense, "operand", TOL.get(g, 1e-8))


@st.composite
def st_case(draw, tier):
    m = 9 if tier == "quick" else 16
    if draw(st.integers(0, 9)) < 2:
        r = draw(G.st_fin(maxdim=m, shapes=G.INT_SHAPES))
    else:
        g = draw(st.sampled_from(G.REPGROUPS))
        r = draw(rep_of(g, dict(SU4=8, SO13=9).get(g, m)))
    return dict(
        r=r, a=draw(G.st_alg(15)), b=draw(G.st_alg(15)),
        k=[draw(st.integers(-3, 4)) for _ in range(4)],
        st=[draw(st.integers(-4, 4)) / 4 for _ in range(2)],
    )


def check_functor(case, ctx):
    """Group elements of composed representations are the composed group elements."""
    import lie_nn as lie

    x, y = case["x"], case["y"]
    g = G.group_of(x)
    rx, ry = G.build(x), G.build(y)
    n, m = (len(rx.X), len(rx.H))
    a, k = np.array(case["a"][:n]), np.array(case["k"][:m], dtype=int)
    ctx.nontrivial(rx.dim > 1 and ry.dim > 1 and (np.any(a) or np.any(k)))
    tol = TOL.get(g, 1e-8) * 200
    Dx, Dy = rx.exp_map(a, k), ry.exp_map(a, k)
    sc = mat_scale(Dx) * mat_scale(Dy) * 10
    ok = ok_su2real(x) and ok_su2real(y)
    if ok and rx.dim * ry.dim <= dict(SO13=9, SU4=16).get(g, 40):
        got = lie.tensor_product(rx, ry).exp_map(a, k)
        close(got, np.kron(Dx, Dy), "tensor product", tol, sc * 10)
    got = lie.direct_sum(rx, ry).exp_map(a, k)
    close(got, O.m_direct_sum([Dx, Dy]), "direct sum", tol, sc)
    Q = G.build_q(case["Q"], rx.dim)
    close(lie.change_basis(rx, Q).exp_map(a, k), Q @ Dx @ np.linalg.inv(Q), "change of basis", tol, sc * 20)
    if not np.any(np.iscomplex(rx.algebra())):
        close(lie.conjugate(rx).exp_map(a, k), np.conj(Dx), "conjugate", tol, sc)
    got = lie.group_product(rx, ry).exp_map(np.concatenate([a, a / 2]), np.concatenate([k, k]))
    close(got, np.kron(Dx, ry.exp_map(a / 2, k)), "group product", tol, sc * 10)
    if n:
        P = G.build_q(case["P"], n)
        # X' = P X: parameters transform with the inverse transpose
        got = lie.change_algebra(rx, P).exp_map(np.linalg.inv(P).T @ a, k)
        close(got, Dx, "change of algebra", tol, sc * 20)


@st.composite
def st_functor(draw, tier):
    if draw(st.integers(0, 9)) < 2:
        x = draw(G.st_fin(maxdim=5, shapes=G.INT_SHAPES))
        y = draw(G.st_fin(maxdim=5, groups=(x["g"],), shapes=G.INT_SHAPES))
    else:
        g = draw(st.sampled_from(G.REPGROUPS))
        x = draw(rep_of(g, dict(SO13=3, SU4=4).get(g, 6)))
        y = draw(rep_of(g, dict(SO13=3, SU4=4).get(g, 6)))
    return dict(
        x=x, y=y, a=draw(G.st_alg(15, small=True)), k=[draw(st.integers(-2, 3)) for _ in range(4)],
        Q=draw(G.st_qz()), P=draw(G.st_q(G.REAL_Q)),
    )


def check_jax(case, ctx):
    """The JAX version agrees with the NumPy version."""
    try:
        from lie_nn._src.jax_utils import exp_map, matrix_power
        import jax
    except ImportError:
        raise Skip
    jax.config.update("jax_enable_x64", True)
    r = case["r"]
    rep, dense = G.build(r), G.dense(r)
    A, X, H = dense
    a, k = np.array(case["a"][: len(X)]), np.array(case["k"][: len(H)], dtype=int)
    ctx.nontrivial(G.dim_of(r) > 1 and (np.any(a) or np.any(k)))
    want = O.d_exp(dense, a, k)
    tol = TOL.get(G.group_of(r), 1e-8) * 100
    got = np.asarray(exp_map(rep, a, k))
    close(got, want, "jax exp_map", tol, mat_scale(want))
    close(rep.exp_map(a, k), got, "jax and numpy", tol, mat_scale(want))
    for h in H:
        for e in case["k"]:
            p = np.asarray(matrix_power(h, int(e)))
            q = np.linalg.matrix_power(h, int(e))
            close(p, q, f"matrix power {e}", 1e-9, mat_scale(q))
        if r["t"] == "fin" and (r["Q"] is None or r["Q"]["k"] in G.UNIT_Q):
            # of finite order: any exponent
            e = case["big"]
            p = np.asarray(matrix_power(h, e))
            q = np.linalg.matrix_power(h, e % 24)
            close(p, q, f"matrix power {e}", 1e-5, mat_scale(q))


UNITARY = ["SO3", "O3", "SU2", "SU2Real", "SL2C", "SU3", "SU2_", "SU4", "Z2", "O3*SU2", "SU2*Z2", "SU2*SU2"]


def unitary_exp(x):
    """exp of an antihermitian matrix, by its eigenvalues"""
    w, v = np.linalg.eigh(1j * x)
    return (v * np.exp(-1j * w)) @ np.conj(v.T)


def check_far(case, ctx):
    """Elements far from the identity: many turns, large powers."""
    r = case["r"]
    g = G.group_of(r)
    rep, (A, X, H) = G.build(r), G.dense(r)
    d = G.dim_of(r)
    f = case["f"]
    a = np.array(case["a"][: len(X)]) * f
    k = np.array(case["k"][: len(H)], dtype=int)
    x = np.einsum("a,aij->ij", a, X)
    if not np.allclose(x, -np.conj(x.T)) or not all(np.allclose(h @ np.conj(h.T), np.eye(d)) for h in H):
        raise Skip
    ctx.label(g)
    ctx.nontrivial(d > 1 and (np.any(np.abs(a) > 1.5) or np.any(np.abs(k) > 4)))
    tol = TOL.get(g, 1e-8) * 100 * max(1, f)
    D = rep.exp_map(a, k)
    want = unitary_exp(x)
    for i in reversed(range(len(H))):
        n = 1
        p = H[i]
        while not np.allclose(p, np.eye(d), atol=1e-7) and n < 200:
            p, n = p @ H[i], n + 1
        if n == 200:  # of infinite order
            raise Skip
        want = np.linalg.matrix_power(H[i], int(k[i]) % n) @ want
    close(D, want, "far element", tol, 1.0)
    close(D @ np.conj(D.T), np.eye(d), "unitary", tol, 1.0)
    # the half of the way twice
    zero = np.zeros(len(H), dtype=int)
    h = rep.exp_map(a / 2, zero)
    close(h @ h, rep.exp_map(a, zero), "half of the way twice", tol, 1.0)


@st.composite
def st_far(draw, tier):
    m = 9 if tier == "quick" else 16
    if draw(st.integers(0, 9)) < 3:
        r = draw(G.st_fin(maxdim=m, kinds=G.UNIT_Q, shapes=G.INT_SHAPES, groups=[g for g in G.FIN if g not in ("SL2R", "T2")]))
    else:
        g = draw(st.sampled_from(UNITARY))
        r = draw(rep_of(g, dict(SU4=10).get(g, m), kinds=G.UNIT_Q))
    f = draw(st.sampled_from([1, 2, 4, 8, 16, 26]))
    k = st.one_of(st.integers(-12, 12), st.integers(-(2**20), 2**20))
    return dict(r=r, a=draw(G.st_alg(15)), f=f, k=[draw(k) for _ in range(4)])


def check_transform(case, ctx):
    """The JAX version inside compiled, batched and differentiated functions; single precision."""
    try:
        from lie_nn._src.jax_utils import exp_map
        import jax
        import jax.numpy as jnp
    except ImportError:
        raise Skip
    r = case["r"]
    rep, dense = G.build(r), G.dense(r)
    A, X, H = dense
    n, m, d = len(X), len(H), G.dim_of(r)
    ctx.nontrivial(d > 1 and (n > 0 or m > 0))
    sets = [(np.array(a[:n]), np.array(k[:m], dtype=int)) for a, k in case["sets"]]
    want = np.stack([O.d_exp(dense, a, k) for a, k in sets])
    sc = mat_scale(want)
    tol = TOL.get(G.group_of(r), 1e-8) * 100
    aa, kk = np.stack([a for a, _ in sets]), np.stack([k for _, k in sets])
    jax.config.update("jax_enable_x64", False)
    try:
        got = np.asarray(exp_map(rep, aa[0], kk[0]))
        close(got, want[0], "single precision", 2e-4, sc**2)
    finally:
        jax.config.update("jax_enable_x64", True)
    f = lambda a, k: exp_map(rep, a, k)  # noqa: E731
    g = jax.jit(f)
    for i in range(len(sets)):
        close(np.asarray(g(aa[i], kk[i])), want[i], "compiled", tol, sc)
    close(np.asarray(jax.vmap(f)(aa, kk)), want, "batched", tol, sc)
    if n:
        # derivative at the identity: the generators
        J = jax.jacfwd(lambda t: jnp.stack([f(t, jnp.zeros(m, dtype=int)).real, f(t, jnp.zeros(m, dtype=int)).imag]))(jnp.zeros(n))
        J = np.asarray(J)
        close(np.moveaxis(J[0] + 1j * J[1], -1, 0), X, "derivative at the identity", tol, mat_scale(X))


@st.composite
def st_transform(draw, tier):
    if draw(st.booleans()):
        r = draw(G.st_fin(maxdim=4, kinds=G.QKINDS, shapes=("gen", "red", "mul")))
    else:
        g = draw(st.sampled_from(["SO3", "O3", "Z2", "O3", "SU2", "SU3", "SL2C", "O3*SU2"]))
        r = draw(rep_of(g, 4, kinds=G.QKINDS))
    one = st.tuples(G.st_alg(15, small=True), st.lists(st.integers(-4, 5), min_size=4, max_size=4)).map(list)
    return dict(r=r, sets=draw(st.lists(one, min_size=3, max_size=3)))


@st.composite
def st_jax(draw, tier):
    if draw(st.integers(0, 3)) == 0:
        r = draw(G.st_fin(maxdim=4, kinds=G.QKINDS, shapes=G.INT_SHAPES))
    else:
        g = draw(st.sampled_from(["SO3", "O3", "Z2", "O3", "SU2", "SU3", "SL2C"]))
        r = draw(rep_of(g, 4, kinds=G.QKINDS))
    return dict(r=r, a=draw(G.st_alg(15)), k=[draw(st.integers(-4, 9)) for _ in range(4)], big=draw(st.integers(-(2**20), 2**20)))


@st.composite
def st_jax_discrete(draw, tier):
    """Several discrete generators that do not commute, with powers that do not commute either."""
    r = draw(G.st_fin(maxdim=4, groups=("S3", "Q8", "D4", "S4", "S4c", "Pauli", "Dic3"), kinds=G.QKINDS, shapes=G.INT_SHAPES))
    k = [draw(st.sampled_from([1, 3, -1, -3, 2, 5, 7])) for _ in range(4)]
    return dict(r=r, a=[0.0] * 15, k=k, big=draw(st.integers(-(2**20), 2**20)))


def check_pytree(case, ctx):
    """static_jax_pytree: the object is part of the structure, so compiled functions depend on its value."""
    try:
        from lie_nn._src.jax_utils import static_jax_pytree
        import jax
    except ImportError:
        raise Skip
    import dataclasses

    jax.config.update("jax_enable_x64", True)

    @static_jax_pytree
    class C:
        k: int
        w: tuple

        def times(self, x):
            return self.k * x + sum(self.w)

    ctx.nontrivial(len({tuple(map(str, v)) for v in case["vs"]}) > 1)
    x = np.array(case["x"])
    f = jax.jit(lambda c, y: c.times(y))
    for k, w in case["vs"]:
        c = C(k, tuple(w))
        require(c == C(k, tuple(w)) and hash(c) == hash(C(k, tuple(w))), "equal fields, equal objects")
        require(raises(lambda: setattr(c, "k", 1)), "not frozen")
        require([f.name for f in dataclasses.fields(C)] == ["k", "w"], "fields")
        require(jax.tree_util.tree_leaves(c) == [], "the object has leaves")
        require(jax.tree_util.tree_map(lambda y: y * 0, c) == c, "tree_map")
        leaves, tree = jax.tree_util.tree_flatten(dict(a=c, b=x))
        require(len(leaves) == 1 and jax.tree_util.tree_unflatten(tree, leaves)["a"] == c, "flatten, unflatten")
        # the same compiled function, every value of the object
        close(np.asarray(f(c, x)), k * x + sum(w), "compiled function", 1e-12, 100)


@st.composite
def st_pytree(draw, tier):
    v = st.tuples(st.integers(-3, 3), st.lists(st.integers(-2, 2), max_size=3)).map(list)
    return dict(vs=draw(st.lists(v, min_size=1, max_size=4)), x=draw(st.lists(st.integers(-8, 8).map(lambda n: n / 4), max_size=3)))


def sweep_large(tier):
    return [dict(r=r, a=AL, b=AL[::-1], k=[1, 3, -2, 5], st=[0.75, -0.5]) for r in big_reps(tier == "quick")]


def components(tier):
    return [
        Component("large", check, "dimension > 1 and a non-trivial element", sweep=sweep_large),
        Component("pytree", check_pytree, "several different objects", strategy=st_pytree, n=dict(quick=40, thorough=120), shards=4),
        Component("elements", check, "dimension > 1 and an element other than the identity", strategy=st_case, n=dict(quick=600, thorough=8000)),
        Component("far", check_far, "dimension > 1, parameters beyond 1.5 or exponents beyond 4", strategy=st_far, n=dict(quick=400, thorough=5000)),
        Component("transform", check_transform, "dimension > 1 and some generator", strategy=st_transform, n=dict(quick=32, thorough=200), shards=8),
        Component("functors", check_functor, "both dimensions > 1 and an element other than the identity", strategy=st_functor, n=dict(quick=400, thorough=5000)),
        Component("jax", check_jax, "dimension > 1 and an element other than the identity", strategy=st_jax, n=dict(quick=64, thorough=400), shards=8),
        Component("jax_discrete", check_jax, "dimension > 1 and an element other than the identity", strategy=st_jax_discrete, n=dict(quick=80, thorough=400), shards=8),
    ]
