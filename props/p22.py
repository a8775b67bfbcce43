"""Linear algebra on bases: orthogonalisation, completion, null spaces, intersections."""
from .common import *

ASSUMPTIONS = ["matrices whose singular values are far from the tolerance of the algorithms (exactly dependent, or well separated)"]


def f(rs, c, *s):
    return rs.normal(size=s) + (1j * rs.normal(size=s) if c else 0)


def unit(rs, c, n):
    a, _ = np.linalg.qr(f(rs, c, n, n))
    return a


def rows(rs, c, m, n, r):
    """m x n matrix of rank r, well conditioned on its range; the order of dependent rows is random"""
    B = unit(rs, c, n)[:r]
    C = f(rs, c, m, r)
    u, s, v = np.linalg.svd(C, full_matrices=False)
    return (u * np.linspace(1, 2, len(s))) @ v @ B if len(s) else np.zeros((m, n), dtype=B.dtype)


def ints(rs, c, m, n, r):
    """small integer matrix of rank <= r"""
    A = rs.randint(-2, 3, (m, r)) @ rs.randint(-1, 2, (r, n)) if r else np.zeros((m, n))
    A = A.astype(float)
    if c:
        A = A + 1j * (rs.randint(-1, 2, (m, r)) @ rs.randint(-1, 2, (r, n)) if r else 0)
    return A


def projector(Q):
    """onto the span of the (independent) rows"""
    if len(Q) == 0:
        return np.zeros((Q.shape[1], Q.shape[1]))
    return np.linalg.pinv(Q) @ Q


def row_space(A):
    """orthonormal basis of the span of the rows; None if the rank is ambiguous"""
    if A.size == 0:
        return np.zeros((0, A.shape[1]))
    u, s, v = np.linalg.svd(A)
    if np.any((s > 1e-9) & (s < 0.02)):
        return None
    return v[: int(np.sum(s > 0.02))]


def proj_of(A):
    v = row_space(A)
    return None if v is None else np.conj(v.T) @ v  # acts on columns: P^T for rows


def check_gs(case, ctx):
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    n, m, r, c = case["n"], case["m"], min(case["r"], case["m"], case["n"]), case["c"]
    A = (ints if case["int"] else rows)(rs, c, m, n, r)
    A = A.astype(np.complex128 if c else np.float64)
    # residual norms of the exact process
    Q, flags = [], []
    for a in A:
        v = a.copy()
        for _ in range(2):
            for q in Q:
                v = v - np.vdot(q, v) * q
        norm = np.linalg.norm(v)
        if 1e-9 < norm < 5e-3:
            return
        flags.append(norm > 5e-3)
        if flags[-1]:
            Q.append(v / norm)
    want = np.stack(Q) if Q else np.empty((0, n), dtype=A.dtype)
    k = len(want)
    ctx.nontrivial(0 < k and n > 1)
    ctx.label(f"rank {'full' if k == min(m, n) else 'deficient'}")
    A0 = A.copy()
    got = lie.util.gram_schmidt(A)
    require(np.array_equal(A, A0), "argument modified")
    O.has_shape(got, (k, n), "gram_schmidt")
    close(got, want, "gram_schmidt", 1e-6)
    close(got @ np.conj(got.T), np.eye(k), "orthonormal", 1e-6)
    # completion
    full = lie.util.extend_basis(A)
    require(np.array_equal(A, A0), "argument modified by extend_basis")
    O.has_shape(full, (n, n), "extend_basis")
    close(full @ np.conj(full.T), np.eye(n), "completed basis is orthonormal", 1e-6)
    close(full[:k], want, "the completed basis starts with the given space", 1e-6)
    if not c:
        require(not np.iscomplexobj(full), "complex basis of a real space")
    E = lie.util.extend_basis(A, returns="E")
    O.has_shape(E, (n - k, n), "extension")
    close(E, full[k:], "extension", 1e-12)
    # rounding to square roots of rationals does not move exact results
    if case["int"]:
        rt = lie.util.round_to_sqrt_rational
        g2 = lie.util.gram_schmidt(A, round_fn=rt)
        O.has_shape(g2, (k, n), "rounded gram_schmidt")
        close(g2, want, "rounded gram_schmidt", 2e-3)


@st.composite
def st_gs(draw, tier):
    m = 7 if tier == "quick" else 12
    return dict(n=draw(st.integers(1, m)), m=draw(st.integers(0, m)), r=draw(st.integers(0, m)), c=draw(st.booleans()), int=draw(st.booleans()), s=draw(st.integers(0, 10**6)))


def check_null(case, ctx):
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    n, c = case["n"], case["c"]
    blocks = []
    for m, r in case["blocks"]:
        B = (ints if case["int"] else rows)(rs, c, m, n, min(m, r, n))
        blocks.append(B.astype(np.complex128 if c else np.float64))
    A = np.concatenate(blocks)
    V = row_space(A)
    if V is None:
        return
    k = n - len(V)
    ctx.nontrivial(0 < k < n)
    ctx.label(f"nullity {k}")
    A0 = A.copy()
    X = lie.util.nullspace(A)
    require(np.array_equal(A, A0), "argument modified")
    O.has_shape(X, (k, n), "nullspace")
    close(A @ X.T, np.zeros((len(A), k)), "A X^T = 0", 1e-6, mat_scale(A))
    close(X @ np.conj(X.T), np.eye(k), "orthonormal null space", 1e-6)
    if not c:
        require(not np.iscomplexobj(X), "complex null space of a real matrix")
    # sequential version: stops as soon as the dimension is small enough
    for target in range(0, n + 1):
        exp = None
        amb = False
        for i in range(1, len(blocks) + 1):
            Vi = row_space(np.concatenate(blocks[:i]))
            if Vi is None:
                amb = True
                break
            if n - len(Vi) <= target:
                exp = i
                break
        if amb:
            continue
        used = []

        def gen():
            for i, B in enumerate(blocks):
                used.append(i)
                yield B

        arg = gen() if case["s"] % 2 else list(blocks)
        if exp is None:
            require(raises(lambda: lie.util.sequential_nullspace(arg, target), ValueError), "not enough constraints, but no ValueError")
            continue
        S = lie.util.sequential_nullspace(arg, target)
        Ai = np.concatenate(blocks[:exp])
        ki = n - len(row_space(Ai))
        O.has_shape(S, (ki, n), f"sequential_nullspace({target})")
        close(Ai @ S.T, np.zeros((len(Ai), ki)), "sequential: A X^T = 0", 1e-6, mat_scale(Ai))
        close(S @ np.conj(S.T), np.eye(ki), "sequential: orthonormal", 1e-6)
        if case["s"] % 2:
            require(len(used) == exp, f"{len(used)} blocks were consumed, {exp} were enough")


@st.composite
def st_null(draw, tier):
    m = 7 if tier == "quick" else 12
    blocks = draw(st.lists(st.tuples(st.integers(1, m), st.integers(0, 4)).map(list), min_size=1, max_size=4))
    return dict(n=draw(st.integers(1, m)), blocks=blocks, c=draw(st.booleans()), int=draw(st.booleans()), s=draw(st.integers(0, 10**6)))


def check_inter(case, ctx):
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    shape, c = tuple(case["shape"]), case["c"]
    n = int(np.prod(shape))
    a, b, k = case["a"], case["b"], case["k"]
    if k + a + b > n:
        a = b = max(0, (n - k) // 2)
    k = min(k, n)
    U = unit(rs, c, n)
    if case["axis"]:  # coordinate subspaces
        U = np.eye(n)[rs.permutation(n)].astype(U.dtype)
    # V1 = span(U[:k], U[k:k+a]), V2 = span(U[:k], mix): principal angles at least ~50 degrees
    V1 = np.concatenate([U[:k], U[k : k + a]])
    W = U[k + a : k + a + b].copy()
    if case["tilt"] and a and b:
        j = min(a, b)
        W[:j] = 0.8 * W[:j] + 0.6 * U[k : k + j]
    V2 = np.concatenate([U[:k], W])
    if len(V1) == 0 or len(V2) == 0:
        return
    mix = (lambda d: unit(rs, c, d)) if not case["scale"] else (lambda d: unit(rs, c, d) * rs.uniform(0.7, 1.5, d))
    B1 = (mix(len(V1)) @ V1).astype(np.complex128 if c else np.float64)
    B2 = (mix(len(V2)) @ V2).astype(np.complex128 if c else np.float64)
    ctx.nontrivial(k > 0 and (a > 0 or b > 0))
    ctx.label(f"intersection {min(k, 4)}")
    b1, b2 = B1.reshape((len(B1),) + shape), B2.reshape((len(B2),) + shape)
    c1, c2 = b1.copy(), b2.copy()
    P1, P2 = lie.util.basis_intersection(b1, b2)
    require(np.array_equal(b1, c1) and np.array_equal(b2, c2), "argument modified")
    O.has_shape(P1, (k, len(B1)), "P1")
    O.has_shape(P2, (k, len(B2)), "P2")
    want = projector(U[:k]) if k else np.zeros((n, n))
    for P, B, name in ((P1, B1, "first"), (P2, B2, "second")):
        close(P @ np.conj(P.T), np.eye(k), f"{name} projection has orthonormal rows", 1e-5)
        close(projector(P @ B) if k else np.zeros((n, n)), want, f"{name} projection spans the intersection", 1e-4)


@st.composite
def st_inter(draw, tier):
    shape = draw(st.sampled_from([[4], [6], [2, 3], [2, 2, 2], [3, 3], [9], [1], [2]]))
    return dict(
        shape=shape, a=draw(st.integers(0, 3)), b=draw(st.integers(0, 3)), k=draw(st.integers(0, 4)), c=draw(st.booleans()),
        axis=draw(st.booleans()), tilt=draw(st.booleans()), scale=draw(st.booleans()), s=draw(st.integers(0, 10**6)),
    )


def sweep_gs(tier):
    """matrices of tens to hundreds of rows"""
    out = []
    sizes = [(20, 30, 12), (40, 40, 40), (60, 90, 60), (90, 60, 45), (17, 200, 17), (120, 120, 60), (65, 70, 64)]
    if tier != "quick":
        sizes += [(200, 200, 150), (300, 260, 260), (257, 300, 130)]
    for i, (n, m, r) in enumerate(sizes):
        for c in (False, True):
            out.append(dict(n=n, m=m, r=r, c=c, int=False, s=100 + i))
    return out


def check_tilted(case, ctx):
    """Null spaces close to coordinate subspaces: every tolerance finds the same space, to full precision."""
    import lie_nn as lie
    import scipy.linalg

    rs = np.random.RandomState(case["s"])
    n, k, c = case["n"], min(case["k"], case["n"]), case["c"]
    T = rs.normal(size=(n, n)) + (1j * rs.normal(size=(n, n)) if c else 0)
    T = (T - np.conj(T.T)) / max(1.0, np.linalg.norm(T)) * 10.0 ** -case["e"]
    # some rows stay exactly on the axes
    keep = rs.rand(n) < case["keep"]
    T[keep] = 0
    T[:, keep] = 0
    U = scipy.linalg.expm(T)[:, rs.permutation(n)]
    A = U[k:] * rs.uniform(0.8, 1.2, (n - k, 1))
    A = np.concatenate([A, rs.normal(size=(2, n - k)) @ A])[rs.permutation(n - k + 2)]
    ctx.nontrivial(0 < k < n)
    ctx.label(f"tolerance {case['eps']}")
    kw = dict(epsilon=case["eps"]) if case["eps"] else {}
    X = lie.util.nullspace(A, **kw)
    O.has_shape(X, (k, n), "nullspace")
    close(A @ X.T, np.zeros((len(A), k)), "A X^T = 0", 1e-9, 10)
    close(X @ np.conj(X.T), np.eye(k), "orthonormal null space", 1e-9)
    if k < n:
        X = lie.util.sequential_nullspace([A[:1], A[1:]] if len(A) > 1 else [A], k, **kw)
        O.has_shape(X, (k, n), "sequential")
        close(A @ X.T, np.zeros((len(A), k)), "sequential: A X^T = 0", 1e-9, 10)
        close(X @ np.conj(X.T), np.eye(k), "sequential: orthonormal", 1e-9)


@st.composite
def st_tilted(draw, tier):
    n = draw(st.integers(1, 10 if tier == "quick" else 24))
    return dict(n=n, k=draw(st.integers(0, n)), c=draw(st.booleans()), e=draw(st.integers(0, 7)), keep=draw(st.sampled_from([0, 0.3, 0.6])),
                eps=draw(st.sampled_from([0, 1e-4, 1e-6, 1e-8, 1e-10])), s=draw(st.integers(0, 10**6)))


def check_null_big(case, ctx):
    """One null space of a large matrix."""
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    n, k, c = case["n"], case["k"], case["c"]
    U = unit(rs, c, n)
    r = n - k
    # rows in random order, some repeated
    A = U[:r][rs.permutation(r)] * rs.uniform(0.8, 1.2, (r, 1)) if r else np.zeros((3, n), dtype=U.dtype)
    A = np.concatenate([A, A[: len(A) // 3]])
    ctx.nontrivial(0 < k < n)
    ctx.label(f"nullity {100 * k // n} %")
    A0 = A.copy()
    got = [("nullspace", lie.util.nullspace(A))]
    h = len(A) // 2
    if k < n:
        got.append(("sequential_nullspace", lie.util.sequential_nullspace([A[:h], A[h:]], k)))
    require(np.array_equal(A, A0), "argument modified")
    for name, X in got:
        O.has_shape(X, (k, n), name)
        close(A @ X.T, np.zeros((len(A), k)), f"{name}: A X^T = 0", 1e-6, mat_scale(A))
        close(X @ np.conj(X.T), np.eye(k), f"{name}: orthonormal", 1e-6)
        if not c:
            require(not np.iscomplexobj(X), f"{name}: complex null space of a real matrix")


def sweep_null(tier):
    sizes = [(40, 1), (40, 39), (64, 20), (65, 40), (100, 60), (129, 100), (200, 3), (257, 180), (420, 400), (520, 10), (520, 330)]
    if tier != "quick":
        sizes += [(1030, 20), (1030, 600), (1300, 1000), (300, 0), (700, 699)]
    return [dict(n=n, k=k, c=c, s=7 + i) for i, (n, k) in enumerate(sizes) for c in (False, True) if not (c and n > 600)]


def sweep_inter(tier):
    out = []
    for i, (shape, a, b, k) in enumerate([([6, 7], 10, 12, 8), ([4, 4, 4], 20, 10, 25), ([90], 3, 40, 30), ([8, 16], 30, 30, 40), ([5, 5, 6], 0, 60, 60)]):
        for tilt in (False, True):
            out.append(dict(shape=shape, a=a, b=b, k=k, c=bool(i % 2), axis=i == 2, tilt=tilt, scale=False, s=i))
    return out


def components(tier):
    return [
        Component("large null spaces", check_null_big, "a null space that is neither empty nor everything", sweep=sweep_null),
        Component("large orthogonalisation", check_gs, "a space that is neither empty nor one-dimensional", sweep=sweep_gs),
        Component("large intersections", check_inter, "a proper, non-empty intersection", sweep=sweep_inter),
        Component("orthogonalisation", check_gs, "a space that is neither empty nor one-dimensional", strategy=st_gs, n=dict(quick=12000, thorough=40000), shards=16),
        Component("null spaces", check_null, "a null space that is neither empty nor everything", strategy=st_null, n=dict(quick=12000, thorough=40000), shards=16),
        Component("tilted null spaces", check_tilted, "a null space that is neither empty nor everything", strategy=st_tilted, n=dict(quick=6000, thorough=20000), shards=8),
        Component("intersections", check_inter, "a proper, non-empty intersection", strategy=st_inter, n=dict(quick=12000, thorough=40000), shards=16),
    ]
