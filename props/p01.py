"""The generators of every tabulated irrep satisfy the one Lie algebra of its group."""
from .common import *
import math

ASSUMPTIONS = ["labels up to the dimensions in props/common.py IRREP_MAX; numpy linear algebra"]


def cases(tier):
    out = []
    for g in G.GROUPS:
        for l in G.labels(g, IRREP_MAX[tier][g]):
            out.append(dict(g=g, l=list(l)))
    out += [dict(g=g, l=l) for g in FAR for l in FAR[g]]
    return out


def check_irrep(case, ctx):
    g, l = case["g"], tuple(case["l"])
    r = G.mk(g, l)
    tol = TOL[g]
    d = O.label_dim(g, l)
    n = G.LIE_DIM[g]
    ctx.nontrivial(d > 1 and n > 0)
    ctx.label(g)
    require(r.dim == d, f"dim {r.dim}, expected {d}")
    require(r.lie_dim == n, f"lie_dim {r.lie_dim}, expected {n}")
    A = O.has_shape(r.algebra(), (n, n, n), "algebra")
    triv = G.mk(g, G.labels(g, 1)[0])
    close(A, triv.algebra(), "algebra differs from that of the trivial irrep", tol)
    X = O.has_shape(r.continuous_generators(), (n, d, d), "continuous generators")
    H = O.has_shape(r.discrete_generators(), (G.N_H[g], d, d), "discrete generators")
    lhs = np.einsum("iab,jbc->ijac", X, X)
    lhs = lhs - np.swapaxes(lhs, 0, 1)
    close(lhs, np.einsum("ijk,kab->ijab", A, X), "[X_i, X_j] = A_ijk X_k", tol, mat_scale(X) ** 2 + 1)
    close(r.A, A, "A")
    close(r.X, X, "X")
    close(r.H, H, "H")
    for h in H:  # inversions: commute with the algebra and square to one
        close(h @ h, np.eye(d), "H^2 = 1", tol)
        for x in X:
            close(h @ x, x @ h, "H X = X H", tol)
    if d > 1 and n:
        s = np.linalg.svd(X.reshape(n, -1), compute_uv=False)
        full = n if g not in ("SL2C", "SO13") or all(v > 0 for v in l) else 3
        rk = int(np.sum(s > 1e-6 * s[0]))
        require(rk == full, f"the generators span {rk} dimensions, expected {full}")


def check_linear(case, ctx):
    """Two random elements: [a.X, b.X] = [a,b].X, and the algebra is Lie."""
    g, l = case["g"], tuple(case["l"])
    r = G.mk(g, l)
    n = G.LIE_DIM[g]
    a, b = np.array(case["a"][:n]), np.array(case["b"][:n])
    X, A = r.continuous_generators(), r.algebra()
    ctx.nontrivial(O.label_dim(g, l) > 1 and np.any(a) and np.any(b))
    x, y = np.einsum("i,iab->ab", a, X), np.einsum("i,iab->ab", b, X)
    c = np.einsum("i,j,ijk->k", a, b, A)
    close(x @ y - y @ x, np.einsum("k,kab->ab", c, X), "[a.X, b.X]", TOL[g], mat_scale(x) * mat_scale(y) * len(x) + 1)
    # the group: exp(a) exp(b) exp(-a) = exp(Ad(a) b), exp(sa) exp(ta) = exp((s + t) a), inversions are central
    import scipy.linalg as sla

    f = min(1.0, 4.0 / (1e-9 + np.linalg.norm(x, 2)), 4.0 / (1e-9 + np.linalg.norm(y, 2)))
    if g in ("SO13",):
        f = f / 2
    a, b = f * a, f * b
    k = np.zeros(G.N_H[g], dtype=int)
    E, F, I = r.exp_map(a, k), r.exp_map(b, k), r.exp_map(-a, k)
    Ad = sla.expm(np.einsum("a,abc->bc", a, A))  # E X_b E^-1 = Ad[b, c] X_c
    sc = mat_scale(E) * mat_scale(F) * mat_scale(I) * len(x)
    close(E @ I, np.eye(len(x)), "inverse element", TOL[g], sc)
    close(E @ F @ I, r.exp_map(b @ Ad, k), "exp(a) exp(b) exp(-a) = exp(Ad(a) b)", TOL[g] * 10, sc)
    close(E @ r.exp_map(a / 2, k), r.exp_map(1.5 * a, k), "one-parameter subgroup", TOL[g], sc)
    if len(k):
        h = r.exp_map(np.zeros(n), k + 1)
        close(h @ E, E @ h, "inversion is central", TOL[g], sc)
        close(h @ E, r.exp_map(a, k + 1), "inversion and rotation", TOL[g], sc)


def check_algebra(case, ctx):
    g = case["g"]
    l = tuple(case["l"])
    A = G.mk(g, l).algebra()
    n = G.LIE_DIM[g]
    require(A.dtype.kind == "f" or np.all(A.imag == 0), "the structure constants are real")
    close(A, -np.swapaxes(A, 0, 1), "antisymmetry", 1e-9)
    J = np.einsum("ijm,mkl->ijkl", A, A)
    close(J + np.transpose(J, (1, 2, 0, 3)) + np.transpose(J, (2, 0, 1, 3)), np.zeros_like(J), "Jacobi", 1e-8)
    if n:
        ctx.nontrivial()
        K = np.einsum("iab,jba->ij", np.swapaxes(A, 1, 2), np.swapaxes(A, 1, 2))
        w = np.linalg.eigvalsh(K)
        sig = (int(np.sum(w < -1e-9)), int(np.sum(w > 1e-9)))
        want = (3, 3) if g == "SO13" else (n, 0)
        require(sig == want, f"Killing form has signature {sig}, expected {want}")


@st.composite
def linear(draw, tier):
    g = draw(st.sampled_from([g for g in G.GROUPS if g != "Z2"]))
    md = min(IRREP_MAX[tier][g], 20 if tier == "quick" else 40)
    return dict(g=g, l=draw(G.st_label(g, md)), a=draw(G.st_alg(15)), b=draw(G.st_alg(15)))


def sun_family(case, ctx):
    """SU(N) for any N through the base class of SU3: the same guarantees."""
    import lie_nn as lie

    base = lie.irreps.SU3.__mro__[1]
    if base is lie.TabulatedIrrep:
        raise Skip()
    S = tuple(case["S"])
    N = len(S)
    r = base(S)
    d = O.weyl_dim_sun(S)
    ctx.nontrivial(d > 1)
    ctx.label(f"SU{N}")
    A = O.has_shape(r.algebra(), (N * N - 1,) * 3, "algebra")
    X = O.has_shape(r.continuous_generators(), (N * N - 1, d, d), "generators")
    O.has_shape(r.discrete_generators(), (0, d, d), "H")
    lhs = np.einsum("iab,jbc->ijac", X, X)
    lhs = lhs - np.swapaxes(lhs, 0, 1)
    close(lhs, np.einsum("ijk,kab->ijab", A, X), "[X_i, X_j] = A_ijk X_k", 1e-6, mat_scale(X) ** 2 + 1)
    close(X, -np.conj(np.swapaxes(X, 1, 2)), "anti-Hermitian", 1e-9)
    close(np.trace(X, axis1=1, axis2=2), np.zeros(len(X)), "traceless", 1e-8)
    close(A, base((0,) * N).algebra(), "algebra differs from that of the trivial irrep", 1e-9)
    # the quadratic Casimir element is a multiple of the identity, with the value of the highest weight
    K = np.einsum("iab,jba->ij", np.swapaxes(A, 1, 2), np.swapaxes(A, 1, 2))
    C = np.einsum("ij,iab,jbc->ac", np.linalg.inv(K), X, X)
    rho = [N - 1 - i for i in range(N)]
    f = lambda u, v: sum(x * y for x, y in zip(u, v)) - sum(u) * sum(v) / N  # noqa: E731
    c = (f(S, S) + f(S, rho) + f(rho, S)) / (2 * N)
    close(C, c * np.eye(d), f"Casimir of {S}", 1e-7)


def sun_cases(tier):
    out = [(0,) * n for n in range(2, 8)] + [(1,) + (0,) * n for n in range(1, 8)] + [(1,) * n + (0,) for n in range(2, 7)]
    out += [(2,) + (0,) * n for n in range(1, 6)] + [(2,) + (1,) * n + (0,) for n in range(1, 5)] + [(2,) * n + (0,) for n in range(2, 6)]
    out += [(1, 1, 0, 0, 0), (1, 1, 1, 0, 0), (2, 2, 0, 0, 0), (2, 1, 0, 0, 0), (3, 0, 0, 0, 0), (3, 3, 3, 3, 0)]
    out += [(1,) + (0,) * n for n in (8, 9, 10)] + [(1,) * 9 + (0,)]
    out += [(1, 1, 0, 0, 0, 0), (1, 1, 1, 0, 0, 0), (1, 1, 1, 1, 0, 0), (1, 1, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 0, 0)]
    if tier == "thorough":
        out += [(2, 2, 1, 0, 0), (2, 1, 1, 0, 0), (3, 1, 0, 0, 0), (3, 2, 2, 2, 0), (4, 0, 0, 0, 0), (2, 1, 0, 0, 0, 0), (2, 2, 0, 0, 0, 0), (1, 1, 1, 0, 0, 0, 0), (1, 1) + (0,) * 6, (1, 1) + (0,) * 7, (1,) + (0,) * 11, (1,) * 10 + (0,)]
    return [dict(S=list(s)) for s in out]


def components(tier):
    alg = [dict(g=g, l=list(l)) for g in G.GROUPS for l in G.labels(g, 9 if g != "SU4" else 20)]
    return [
        Component("irreps", check_irrep, "distinct labels of dimension > 1 of a group with a Lie algebra", sweep=cases),
        Component("algebra", check_algebra, "labels of a group with a Lie algebra", sweep=lambda t: alg),
        Component("sun", sun_family, "labels of dimension > 1", sweep=sun_cases),
        Component("elements", check_linear, "pairs of non-zero elements in an irrep of dimension > 1", strategy=linear, n=dict(quick=2000, thorough=6000)),
    ]
