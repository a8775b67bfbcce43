"""A label denotes the irrep it promises: characters, dimension, unitarity, reality."""
from .common import *

ASSUMPTIONS = ["a finite-dimensional representation of a reductive group is determined by its character"]


def character(g, l, a, k):
    """Independent character of the group element given by the Lie algebra parameters a and the
    discrete exponents k."""
    if g in ("SO3", "O3", "SU2", "SU2Real"):
        th = np.sqrt(np.sum(np.asarray(a[:3]) ** 2) + 0j)
        tj = 2 * l[0] if g in ("SO3", "O3") else l[0]
        c = sum(np.exp(x) for x in O.su2_spectrum(tj, th))
        if g == "SU2Real" and tj % 2 == 1:
            c = 2 * c.real
        if g == "O3" and k % 2:
            c = c * l[1]
        return c
    if g == "Z2":
        return l[0] if k % 2 else 1
    t, p = np.array(a[:3]), np.array(a[3:6])
    if g == "SL2C":
        L, R = t + p, t - p
    else:
        L, R = t + 1j * p, t - 1j * p
    cl = sum(np.exp(x) for x in O.su2_spectrum(l[0], np.sqrt(np.sum(L**2) + 0j)))
    cr = sum(np.exp(x) for x in O.su2_spectrum(l[1], np.sqrt(np.sum(R**2) + 0j)))
    return cl * cr


def sun_character(S, a):
    """Through the defining representation."""
    n = len(S)
    g = {2: "SU2_", 3: "SU3", 4: "SU4"}[n]
    F = G.mk(g, (1,) + (0,) * (n - 1)).continuous_generators()
    m = np.einsum("i,iab->ab", a[: n * n - 1], F)
    lam = np.exp(np.linalg.eigvals(m))
    return O.schur_poly(S, lam)


def check_character(case, ctx):
    g, l = case["g"], tuple(case["l"])
    r = G.mk(g, l)
    n = G.LIE_DIM[g]
    a = np.array(case["a"][:n])
    k = case["k"]
    d = O.label_dim(g, l)
    if n:
        # keep exp well conditioned also for the non compact group and large spins
        a = a * min(1.0, 3.0 / (1 + 0.3 * sum(abs(x) for x in l)))
    ctx.nontrivial(d > 1 and (n == 0 or np.any(a != 0)))
    ctx.label(g)
    M = r.exp_map(a, np.array([k] * G.N_H[g], dtype=int))
    O.has_shape(M, (d, d), "exp_map")
    want = sun_character(l, a) if g in ("SU2_", "SU3", "SU4") else character(g, l, a, k)
    close(np.trace(M), want, f"character of {g}{l}", 1e-6, scale=d + abs(want) + mat_scale(M))


@st.composite
def char_case(draw, tier):
    g = draw(st.sampled_from(G.GROUPS))
    return dict(
        g=g,
        l=draw(G.st_label(g, IRREP_MAX[tier][g])),
        a=draw(G.st_alg(15, small=True)),
        k=draw(st.integers(0, 3)),
    )


def sweep(tier):
    return [dict(g=g, l=list(l)) for g in G.GROUPS for l in G.labels(g, IRREP_MAX[tier][g])] + [dict(g=g, l=l) for g in FAR for l in FAR[g]]


def check_form(case, ctx):
    """Unitary if compact, real matrices where promised, and irreducible character at a generic
    fixed element (every label)."""
    g, l = case["g"], tuple(case["l"])
    r = G.mk(g, l)
    X, H = r.continuous_generators(), r.discrete_generators()
    d = O.label_dim(g, l)
    ctx.nontrivial(d > 1)
    ctx.label(g)
    require(r.dim == d and X.shape[1:] == (d, d), "dimension")
    if g != "SO13":
        close(X, -np.conj(np.swapaxes(X, 1, 2)), "anti-Hermitian generators", 1e-9, mat_scale(X))
    else:
        J = X[:3]
        # rotations have purely imaginary, boosts purely real spectrum
        for x in X[:3]:
            close(np.linalg.eigvals(x).real, np.zeros(d), "rotation spectrum", 1e-5, mat_scale(X))
        for x in X[3:]:
            close(np.linalg.eigvals(x).imag, np.zeros(d), "boost spectrum", 1e-5, mat_scale(X))
    for h in H:
        close(h @ np.conj(h.T), np.eye(d), "unitary discrete generators", 1e-9)
    if g in ("SO3", "O3", "SU2Real", "Z2") or (g == "SO13" and l[0] == l[1]):
        require(not np.any(np.imag(X)) and not np.any(np.imag(H)), "the generators should be real")
    if g in ("O3", "Z2"):
        close(H, l[-1] * np.eye(d)[None], "parity")
    close(np.trace(X, axis1=1, axis2=2), np.zeros(len(X)), "traceless", 1e-7, mat_scale(X) * d)
    n = G.LIE_DIM[g]
    a = np.array([0.31, -0.57, 0.83, 0.22, 0.41, -0.36, 0.53, -0.19, 0.47, 0.29, -0.61, 0.37, -0.43, 0.59, 0.11])[:n]
    a = a * min(1.0, 3.0 / (1 + 0.3 * sum(abs(x) for x in l)))
    M = r.exp_map(a, np.array([1] * G.N_H[g], dtype=int))
    want = sun_character(l, a) if g in ("SU2_", "SU3", "SU4") else character(g, l, a, 1)
    close(np.trace(M), want, f"character of {g}{l}", 1e-6, scale=d + abs(want) + mat_scale(M))


def check_defining(case, ctx):
    """The small faithful irreps are the defining representations."""
    import lie_nn as lie

    g = case["g"]
    ctx.nontrivial()
    if g in ("SU2_", "SU3", "SU4"):
        n = dict(SU2_=2, SU3=3, SU4=4)[g]
        X = G.mk(g, (1,) + (0,) * (n - 1)).X
        O.has_shape(X, (n * n - 1, n, n), "defining")
        close(X, -np.conj(np.swapaxes(X, 1, 2)), "su(n)")
        close(np.trace(X, axis1=1, axis2=2), np.zeros(n * n - 1), "traceless")
        M = np.concatenate([X.real.reshape(len(X), -1), X.imag.reshape(len(X), -1)], axis=1)
        require(O.rank(M) == n * n - 1, "the generators do not span su(n)")
    if g == "SO3":
        X = G.mk(g, (1,)).X
        close(X, -np.swapaxes(X, 1, 2), "so(3)")
        require(O.rank(X.reshape(3, -1)) == 3, "span")
    if g == "SO13":
        v = lie.irreps.SO13.four_vector()
        close(v.A, G.mk(g, (1, 1)).A, "algebra of the four vector")
        eta = np.diag([1.0, -1, -1, -1])
        for x in v.X:
            close(eta @ x + x.T @ eta, np.zeros((4, 4)), "Minkowski metric")
        Y = G.mk(g, (1, 1)).X
        require(O.hom_dim(v.X, Y) == 1, "(1,1) is not the four vector")
        S = lie.infer_change_of_basis(v, G.mk(g, (1, 1)))
        require(S.shape == (1, 4, 4), "change of basis from the four vector")
        close(S[0] @ v.X, Y @ S[0], "intertwiner")


def check_distinct(case, ctx):
    """Two labels are equivalent representations iff they are the same label."""
    g = case["g"]
    l1, l2 = tuple(case["l1"]), tuple(case["l2"])
    r1, r2 = triple(G.mk(g, l1)), triple(G.mk(g, l2))
    ctx.nontrivial(l1 != l2)
    n = O.hom_dim(O.gens(r1), O.gens(r2))
    want = 1 if l1 == l2 else 0
    require(n == want, f"Hom({l1}, {l2}) has dimension {n}")


def distinct(tier):
    out = []
    for g in G.GROUPS:
        if g == "SU2Real":
            continue
        labs = G.labels(g, dict(SO13=16, SL2C=16, SU4=20, SU3=15).get(g, 12) if tier == "quick" else 20)
        # only labels of the same dimension could be confused (and one pair of equal ones)
        for i, a in enumerate(labs):
            for b in labs[: i + 1]:
                if O.label_dim(g, a) == O.label_dim(g, b):
                    out.append(dict(g=g, l1=list(a), l2=list(b)))
    return out


def components(tier):
    return [
        Component("form", check_form, "labels of dimension > 1", sweep=sweep),
        Component("defining", check_defining, "every case", sweep=lambda t: [dict(g=g) for g in G.GROUPS]),
        Component("character", check_character, "group elements away from the identity in irreps of dimension > 1", strategy=char_case, n=dict(quick=2000, thorough=6000)),
        Component("distinct", check_distinct, "pairs of different labels of the same dimension", sweep=distinct),
    ]
