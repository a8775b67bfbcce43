"""Mathematics used as oracle.  Nothing in this file imports lie_nn."""
import functools
import itertools
import math
from fractions import Fraction

import numpy as np
import scipy.linalg as sla

from .driver import Violation


# ---------------------------------------------------------------- assertions


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def arr(x, name="array"):
    require(isinstance(x, np.ndarray), f"{name} is not a numpy array but {type(x)}")
    require(x.dtype.kind in "fci", f"{name} has dtype {x.dtype}")
    require(bool(np.all(np.isfinite(x))), f"{name} is not finite")
    return x


def has_shape(x, shape, name="array"):
    arr(x, name)
    require(tuple(x.shape) == tuple(shape), f"{name} has shape {x.shape}, expected {tuple(shape)}")
    return x


def close(a, b, what, tol=1e-8, scale=None):
    a = np.asarray(a)
    b = np.asarray(b)
    require(a.shape == b.shape, f"{what}: shapes {a.shape} and {b.shape} differ")
    if a.size == 0:
        return
    require(bool(np.all(np.isfinite(a))), f"{what}: not finite")
    if scale is None:
        scale = max(1.0, float(np.max(np.abs(b))))
    err = float(np.max(np.abs(a - b)))
    require(err <= tol * scale, f"{what}: differ by {err:.3g} (tolerance {tol * scale:.3g})")


# ---------------------------------------------------------------- dense representations
# A dense representation is a triple (A, X, H) of arrays.


def kron(a, b):
    return np.einsum("ij,kl->ikjl", a, b).reshape(
        a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]
    )


def stack(ms, n, d):
    if len(ms) == 0:
        return np.zeros((0, d, d))
    return np.stack(ms)


def d_dim(r):
    return r[1].shape[1]


def d_tensor(r1, r2):
    A, X1, H1 = r1
    _, X2, H2 = r2
    d1, d2 = d_dim(r1), d_dim(r2)
    X = [kron(a, np.eye(d2)) + kron(np.eye(d1), b) for a, b in zip(X1, X2)]
    H = [kron(a, b) for a, b in zip(H1, H2)]
    return A, stack(X, len(X), d1 * d2), stack(H, len(H), d1 * d2)


def m_direct_sum(ms):
    n = sum(m.shape[0] for m in ms)
    k = sum(m.shape[1] for m in ms)
    out = np.zeros((n, k), dtype=np.complex128)
    i = j = 0
    for m in ms:
        out[i : i + m.shape[0], j : j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return out


def d_sum(reps):
    A = reps[0][0]
    nX = reps[0][1].shape[0]
    nH = reps[0][2].shape[0]
    d = sum(d_dim(r) for r in reps)
    X = [m_direct_sum([r[1][i] for r in reps]) for i in range(nX)]
    H = [m_direct_sum([r[2][i] for r in reps]) for i in range(nH)]
    return A, stack(X, nX, d), stack(H, nH, d)


def d_basis(r, Q):
    A, X, H = r
    iQ = np.linalg.inv(Q)
    return A, np.array([Q @ x @ iQ for x in X]).reshape(X.shape), np.array(
        [Q @ h @ iQ for h in H]
    ).reshape(H.shape)


def d_algebra(r, Q):
    A, X, H = r
    iQ = np.linalg.inv(Q)
    n = Q.shape[0]
    A2 = np.zeros((n, n, n), dtype=np.result_type(A, Q))
    for i in range(n):
        for j in range(n):
            v = sum(
                (Q[i, a] * Q[j, b] * A[a, b] for a in range(n) for b in range(n)), np.zeros(n)
            )
            A2[i, j] = v @ iQ
    X2 = np.array([sum(Q[i, a] * X[a] for a in range(n)) for i in range(n)]).reshape(X.shape)
    return A2, X2, H


def d_conj(r):
    return r[0], np.conj(r[1]), np.conj(r[2])


def d_product(r1, r2):
    A1, X1, H1 = r1
    A2, X2, H2 = r2
    n1, n2 = A1.shape[0], A2.shape[0]
    A = np.zeros((n1 + n2,) * 3, dtype=np.result_type(A1, A2))
    A[:n1, :n1, :n1] = A1
    A[n1:, n1:, n1:] = A2
    d1, d2 = d_dim(r1), d_dim(r2)
    X = [kron(x, np.eye(d2)) for x in X1] + [kron(np.eye(d1), x) for x in X2]
    H = [kron(x, np.eye(d2)) for x in H1] + [kron(np.eye(d1), x) for x in H2]
    return A, stack(X, len(X), d1 * d2), stack(H, len(H), d1 * d2)


def d_exp(r, a, k):
    """H_0^k_0 H_1^k_1 ... exp(sum a_i X_i)"""
    _, X, H = r
    d = d_dim(r)
    m = np.zeros((d, d), dtype=np.complex128)
    for x, y in zip(a, X):
        m = m + x * y
    out = sla.expm(m)
    for n, h in reversed(list(zip(k, H))):
        p = np.eye(d)
        base = h if n >= 0 else np.linalg.inv(h)
        for _ in range(abs(int(n))):
            p = p @ base
        out = p @ out
    return out


def same_dense(got, want, what, tol=1e-8):
    """got: object with algebra/continuous_generators/discrete_generators; want: triple"""
    A, X, H = want
    d = X.shape[1]
    require(got.dim == d, f"{what}: dim is {got.dim}, expected {d}")
    require(got.lie_dim == A.shape[0], f"{what}: lie_dim is {got.lie_dim}, not {A.shape[0]}")
    close(has_shape(got.algebra(), A.shape, f"{what}: algebra"), A, f"{what}: algebra", tol)
    close(
        has_shape(got.continuous_generators(), X.shape, f"{what}: continuous generators"),
        X,
        f"{what}: continuous generators",
        tol,
    )
    close(
        has_shape(got.discrete_generators(), H.shape, f"{what}: discrete generators"),
        H,
        f"{what}: discrete generators",
        tol,
    )


# ---------------------------------------------------------------- Hom spaces (Schur)


def hom_dim(X1, X2, tol=1e-6):
    """dim { S : S X1_a = X2_a S } by SVD."""
    d1 = X1.shape[1]
    d2 = X2.shape[1]
    rows = [np.kron(np.eye(d2), x1.T) - np.kron(x2, np.eye(d1)) for x1, x2 in zip(X1, X2)]
    if not rows:
        return d1 * d2
    M = np.concatenate(rows)
    s = np.linalg.svd(M, compute_uv=False)
    scale = max(1.0, s[0]) if len(s) else 1.0
    rank = int(np.sum(s > tol * scale))
    return d1 * d2 - rank


def gens(r):
    return np.concatenate([r[1].astype(np.complex128), r[2].astype(np.complex128)])


# ---------------------------------------------------------------- characters


def su2_spectrum(two_j, theta):
    """eigenvalues of an element of length theta (complex number allowed) in spin j"""
    return [1j * theta * (m / 2) for m in range(-two_j, two_j + 1, 2)]


def schur_poly(S, lam):
    """Schur polynomial s_S(lam) by Jacobi-Trudi with complete homogeneous polynomials."""
    n = len(S)
    kmax = S[0] + n
    # h_k from the recurrence of generating function prod 1/(1 - lam t)
    h = np.zeros(kmax + 1, dtype=np.complex128)
    h[0] = 1
    for x in lam:
        for k in range(1, kmax + 1):
            h[k] = h[k] + x * h[k - 1]
    M = np.zeros((n, n), dtype=np.complex128)
    for i in range(n):
        for j in range(n):
            k = S[i] - i + j
            M[i, j] = h[k] if k >= 0 else 0
    return np.linalg.det(M)


def weyl_dim_sun(S):
    d = Fraction(1)
    for i in range(len(S)):
        for j in range(i + 1, len(S)):
            d *= Fraction(S[i] - S[j] + j - i, j - i)
    assert d.denominator == 1
    return int(d)


@functools.lru_cache(maxsize=None)
def sun_weights(S):
    """multiset of weights (dict weight->mult) of the gl(n) irrep with highest weight S, by
    branching gl(n) -> gl(n-1)."""
    n = len(S)
    if n == 1:
        return {(S[0],): 1}
    out = {}
    for T in itertools.product(*[range(S[i + 1], S[i] + 1) for i in range(n - 1)]):
        for w, m in sun_weights(tuple(T)).items():
            k = w + (sum(S) - sum(T),)
            out[k] = out.get(k, 0) + m
    return out


def perm_parity(p):
    p = list(p)
    s = 1
    for i in range(len(p)):
        while p[i] != i:
            j = p[i]
            p[i], p[j] = p[j], p[i]
            s = -s
    return s


@functools.lru_cache(maxsize=None)
def sun_product(S1, S2):
    """Decomposition of S1 x S2 as a dict label -> multiplicity (Klimyk's formula)."""
    n = len(S1)
    rho = tuple(range(n - 1, -1, -1))
    out = {}
    for w, m in sun_weights(S1).items():
        v = [S2[i] + w[i] + rho[i] for i in range(n)]
        if len(set(v)) < n:
            continue
        order = sorted(range(n), key=lambda i: -v[i])
        sgn = perm_parity(order)
        u = tuple(v[order[i]] - rho[i] for i in range(n))
        u = tuple(x - u[-1] for x in u)
        out[u] = out.get(u, 0) + sgn * m
    return {k: v for k, v in out.items() if v != 0}


def triangle(a, b, c, step):
    return abs(a - b) <= c <= a + b and (a + b - c) % step == 0


# irreps of a product of groups "A*B": the labels of the factors one after the other
LABEL_LEN = dict(SO3=1, O3=2, SU2=1, SU2Real=1, SL2C=2, SO13=2, SU2_=2, SU3=3, SU4=4, Z2=1)


def split(group, l):
    """[(group, label)] of the factors"""
    out, i = [], 0
    for f in group.split("*"):
        out.append((f, tuple(l[i : i + LABEL_LEN[f]])))
        i += LABEL_LEN[f]
    return out


def product(group, l1, l2):
    """Independent selection rule: dict label -> multiplicity."""
    if "*" in group:
        out = {(): 1}
        for (f, a), (_, b) in zip(split(group, l1), split(group, l2)):
            out = {x + y: m * n for x, m in out.items() for y, n in product(f, a, b).items()}
        return out
    if group == "SU2":
        return {(c,): 1 for c in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1, 2)}
    if group == "SO3":
        return {(c,): 1 for c in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1)}
    if group == "SU2Real":  # labels are 2j
        return {(c,): 1 for c in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1, 2)}
    if group == "O3":
        return {
            (c, l1[1] * l2[1]): 1 for c in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1)
        }
    if group == "Z2":
        return {(l1[0] * l2[0],): 1}
    if group in ("SL2C", "SO13"):
        return {
            (a, b): 1
            for a in range(abs(l1[0] - l2[0]), l1[0] + l2[0] + 1, 2)
            for b in range(abs(l1[1] - l2[1]), l1[1] + l2[1] + 1, 2)
        }
    if group in ("SU2_", "SU3", "SU4"):
        return dict(sun_product(tuple(l1), tuple(l2)))
    raise KeyError(group)


def label_dim(group, l):
    if "*" in group:
        return int(np.prod([label_dim(f, x) for f, x in split(group, l)]))
    if group == "SU2":
        return l[0] + 1
    if group == "SO3" or group == "O3":
        return 2 * l[0] + 1
    if group == "SU2Real":
        return l[0] + 1 if l[0] % 2 == 0 else 2 * (l[0] + 1)
    if group == "Z2":
        return 1
    if group in ("SL2C", "SO13"):
        return (l[0] + 1) * (l[1] + 1)
    return weyl_dim_sun(tuple(l))


# complex = not equivalent to its conjugate, pseudo = quaternionic
def reality(group, l):
    if "*" in group:  # the Frobenius-Schur indicators multiply
        i = [dict(real=1, pseudo=-1, complex=0)[reality(f, x)] for f, x in split(group, l)]
        return {1: "real", -1: "pseudo", 0: "complex"}[int(np.prod(i))]
    if group in ("SO3", "O3", "Z2", "SU2Real"):
        return "real"
    if group == "SU2":
        return "real" if l[0] % 2 == 0 else "pseudo"
    if group == "SL2C":  # the tabulated form is so(4): (spin l/2) x (spin k/2)
        return "real" if (l[0] + l[1]) % 2 == 0 else "pseudo"
    if group == "SO13":
        return "real" if l[0] == l[1] else "complex"
    S = tuple(l)
    dual = tuple(S[0] - x for x in reversed(S))
    if dual != S:
        return "complex"
    if group == "SU2_":
        return "real" if S[0] % 2 == 0 else "pseudo"
    if group == "SU3":
        return "real"
    if group == "SU4":  # self-dual: a b a Dynkin; pseudo never (b antisymmetric 6 is real)
        return "real"
    raise KeyError(group)


# ---------------------------------------------------------------- finite groups by their irreps
def finite_groups():
    w = np.exp(2j * np.pi / 3)
    i = 1j
    s3 = np.sqrt(3) / 2
    one = lambda *xs: [np.array([[x]], dtype=np.complex128) for x in xs]
    m = lambda *xs: [np.array(x, dtype=np.complex128) for x in xs]

    def perm(*images):  # a permutation without the constant vector, in an orthonormal basis
        n = len(images[0])
        b = np.linalg.qr(np.concatenate([np.ones((n, 1)), np.eye(n)[:, 1:]], axis=1))[0][:, 1:]
        return m(*[b.T @ np.eye(n)[:, list(x)] @ b for x in images])

    nat4 = perm([1, 0, 2, 3], [3, 0, 1, 2])
    near4 = perm([1, 0, 2, 3], [0, 2, 1, 3], [0, 1, 3, 2])
    px, pz = m([[0, 1], [1, 0]], [[1, 0], [0, -1]])
    z = np.exp(1j * np.pi / 3)
    return {
        "S4": [one(1, 1), one(-1, -1), perm([0, 2, 1], [2, 1, 0]), nat4, [-x for x in nat4]],
        # S4 by its three neighbouring transpositions
        "S4c": [
            one(1, 1, 1),
            one(-1, -1, -1),
            perm([1, 0, 2], [0, 2, 1], [1, 0, 2]),
            near4,
            [-x for x in near4],
        ],
        # two qubits: X1, Z1, X2, Z2
        "Pauli": [one((-1) ** (j & 1), (-1) ** (j >> 1 & 1), (-1) ** (j >> 2 & 1), (-1) ** (j >> 3)) for j in range(16)]
        + [[np.kron(px, np.eye(2)), np.kron(pz, np.eye(2)), np.kron(np.eye(2), px), np.kron(np.eye(2), pz)]],
        "V8": [one((-1) ** (j & 1), (-1) ** (j >> 1 & 1), (-1) ** (j >> 2)) for j in range(8)],
        "Dic3": [
            one(1, 1),
            one(1, -1),
            one(-1, i),
            one(-1, -i),
            m([[z, 0], [0, 1 / z]], [[0, 1], [-1, 0]]),
            m([[z**2, 0], [0, z**-2]], [[0, 1], [1, 0]]),
        ],
        "Z3": [one(1), one(w), one(w**2)],
        "Z4": [one(1), one(-1), one(i), one(-i)],
        "S3": [one(1, 1), one(-1, 1), m([[1, 0], [0, -1]], [[-0.5, -s3], [s3, -0.5]])],
        "Q8": [
            one(1, 1),
            one(1, -1),
            one(-1, 1),
            one(-1, -1),
            m([[i, 0], [0, -i]], [[0, 1], [-1, 0]]),
        ],
        "D4": [
            one(1, 1),
            one(1, -1),
            one(-1, 1),
            one(-1, -1),
            m([[0, -1], [1, 0]], [[1, 0], [0, -1]]),
        ],
    }


FINITE = finite_groups()


def mixed_groups():
    """Groups with continuous and discrete generators: group -> (A, [(X, H) of each irrep])."""
    c = lambda x: np.array(x, dtype=np.complex128)
    eps = np.zeros((3, 3, 3))
    for a, b, d in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        eps[a, b, d], eps[b, a, d] = 1.0, -1.0
    half = -0.5j * c([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
    spin = {0: np.zeros((3, 1, 1)), 1: half, 2: -eps}
    q8 = FINITE["Q8"]

    def both(tj, i):  # spin tj/2 of SU(2) times an irrep of Q8
        d, e = spin[tj].shape[1], q8[i][0].shape[0]
        return [np.kron(x, np.eye(e)) for x in spin[tj]], [np.kron(np.eye(d), h) for h in q8[i]]

    def block(a, b):
        n, m = len(a), len(b)
        out = np.zeros((n + m,) * 3)
        out[:n, :n, :n], out[n:, n:, n:] = a, b
        return out

    def sl2rep(n):  # h, e, f
        k = np.arange(n)
        e = np.diag(np.arange(1.0, n), 1)
        f = np.diag(np.arange(n - 1.0, 0, -1), -1)
        return np.stack([np.diag(n - 1.0 - 2 * k), e, f])

    sl2 = np.zeros((3, 3, 3))
    for a, b, d, v in ((0, 1, 1, 2.0), (0, 2, 2, -2.0), (1, 2, 0, 1.0)):
        sl2[a, b, d], sl2[b, a, d] = v, -v
    r = lambda m: c([[0, -m], [m, 0]])
    z = c([[0]])
    return {
        # O(2): rotations and one reflection, which does not commute with them
        "O2": (
            np.zeros((1, 1, 1)),
            [([z], [c([[1]])]), ([z], [c([[-1]])])]
            + [([r(m)], [c([[1, 0], [0, -1]])]) for m in (1, 2, 3)],
        ),
        # the double cover of O(2) in which reflections square to -1
        "Pin2": (
            np.zeros((1, 1, 1)),
            [([z], [c([[1]])]), ([z], [c([[-1]])])]
            + [([c([[1j * m, 0], [0, -1j * m]])], [c([[0, 1], [(-1) ** m, 0]])]) for m in (1, 2)],
        ),
        # abelian, and with an abelian factor in the last and in the first place: no discrete generators
        "T2": (
            np.zeros((2, 2, 2)),
            [([c([[1j * a]]), c([[1j * b]])], []) for a, b in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1))],
        ),
        "SU2xU1": (
            block(eps, np.zeros((1, 1, 1))),
            [(list(spin[t]) + [1j * q * np.eye(t + 1)], []) for t, q in ((0, 0), (0, 1), (0, -1), (1, 0), (1, 1), (1, -1), (2, 0))],
        ),
        "U1xSU2": (
            block(np.zeros((1, 1, 1)), eps),
            [([1j * q * np.eye(t + 1)] + list(spin[t]), []) for t, q in ((0, 0), (0, 2), (0, -2), (1, 0), (1, 1), (1, -1), (2, 0))],
        ),
        # not compact: no irrep but the trivial one is unitary, and the structure constants are not antisymmetric
        # in all three indices
        "SL2R": (sl2, [([z, z, z], [])] + [(list(c(sl2rep(n))), []) for n in (2, 3, 4)]),
        "SU2xQ8": (eps, [both(*x) for x in ((0, 0), (0, 1), (1, 0), (0, 4), (2, 2), (1, 4))]),
    }


# irreps of all of these are lists of discrete generators; FINITE_X has the continuous ones
FINITE_A, FINITE_X = {}, {}
for _g, (_a, _irr) in mixed_groups().items():
    FINITE_A[_g] = _a
    FINITE_X[_g] = [x for x, _ in _irr]
    FINITE[_g] = [h for _, h in _irr]
FINITE_REALITY = {
    "Z3": ["real", "complex", "complex"],
    "Z4": ["real", "real", "complex", "complex"],
    "S3": ["real"] * 3,
    "Q8": ["real"] * 4 + ["pseudo"],
    "D4": ["real"] * 5,
    "S4": ["real"] * 5,
    "V8": ["real"] * 8,
    "S4c": ["real"] * 5,
    "Pauli": ["real"] * 17,
    "Dic3": ["real", "real", "complex", "complex", "pseudo", "real"],
    "O2": ["real"] * 5,
    "Pin2": ["real", "real", "pseudo", "real"],
    "T2": ["real"] + ["complex"] * 6,
    "SU2xU1": ["real", "complex", "complex", "pseudo", "complex", "complex", "real"],
    "U1xSU2": ["real", "complex", "complex", "pseudo", "complex", "complex", "real"],
    "SL2R": ["real"] * 4,
    "SU2xQ8": ["real", "real", "pseudo", "pseudo", "real", "real"],
}
FINITE_CONJ = {
    "Z3": [0, 2, 1],
    "Z4": [0, 1, 3, 2],
    "S3": [0, 1, 2],
    "Q8": [0, 1, 2, 3, 4],
    "D4": [0, 1, 2, 3, 4],
    "S4": [0, 1, 2, 3, 4],
    "V8": list(range(8)),
    "S4c": list(range(5)),
    "Pauli": list(range(17)),
    "Dic3": [0, 1, 3, 2, 4, 5],
    "O2": list(range(5)),
    "Pin2": list(range(4)),
    "T2": [0, 2, 1, 4, 3, 6, 5],
    "SU2xU1": [0, 2, 1, 3, 5, 4, 6],
    "U1xSU2": [0, 2, 1, 3, 5, 4, 6],
    "SL2R": list(range(4)),
    "SU2xQ8": list(range(6)),
}


def fin_dim(g, i):
    return (FINITE[g][i] or FINITE_X[g][i])[0].shape[0]



def conj_label(group, l):
    if group in FINITE:
        return (FINITE_CONJ[group][l[0]],)
    if "*" in group:
        return tuple(y for f, x in split(group, l) for y in conj_label(f, x))
    if group == "SO13":
        return (l[1], l[0])
    if group in ("SU2_", "SU3", "SU4"):
        return tuple(l[0] - x for x in reversed(l))
    return tuple(l)


def any_reality(group, l):
    if group in FINITE:
        return FINITE_REALITY[group][l[0]]
    return reality(group, l)


def content_is_real(group, content):
    for l, m in content.items():
        r = any_reality(group, l)
        if r == "pseudo" and m % 2:
            return False
        if r == "complex" and content.get(conj_label(group, l), 0) != m:
            return False
    return True


# ---------------------------------------------------------------- coupling coefficients


def cg_residual(cg, r1, r2, r3):
    """max violation of  CG D3 = (D1 x D2) CG  on the generators; cg[z, i, j, k]"""
    worst = 0.0
    for x1, x2, x3 in zip(r1[1], r2[1], r3[1]):
        left = np.einsum("zijk,lk->zijl", cg, x3)
        right = np.einsum("il,zijk->zljk", x1, cg) + np.einsum("jl,zijk->zilk", x2, cg)
        if left.size:
            worst = max(worst, float(np.max(np.abs(left - right))))
    for h1, h2, h3 in zip(r1[2], r2[2], r3[2]):
        left = np.einsum("zijk,lk->zijl", cg, h3)
        right = np.einsum("il,jm,zijk->zlmk", h1, h2, cg)
        if left.size:
            worst = max(worst, float(np.max(np.abs(left - right))))
    return worst


def rank(M, tol=1e-6):
    M = np.asarray(M)
    if M.size == 0:
        return 0
    s = np.linalg.svd(M, compute_uv=False)
    return int(np.sum(s > tol * max(s[0], 1e-300)))


def scale_of(*rs):
    m = 1.0
    for r in rs:
        for a in r[1:]:
            if a.size:
                m = max(m, float(np.max(np.abs(a))))
    return m
