"""Root systems of the classical Lie algebras and what is computed from them."""
import re
from fractions import Fraction
from itertools import combinations, product

from .common import *

ASSUMPTIONS = [
    "the module of root systems and the symplectic / orthogonal labels are not exported at top level; a component "
    "is skipped (and reported as such) if they cannot be imported",
    "dimensions are compared exactly below 10^12, to a relative 1e-11 above (Weyl's formula in floating point)",
    "B_n, C_n: rank >= 2, D_n: rank >= 2 (rank >= 3 for the axioms of a simple system), A_n: rank >= 1",
]


def mod():
    try:
        from lie_nn._src import lie_algebra_utils as m

        m.structure_algebra, m.cartan_matrix, m.weyl_dim
    except (ImportError, AttributeError):
        raise Skip()
    return m


# ------------------------------------------------------------ oracle: roots from first principles
def e(n, *ij):
    v = [Fraction(0)] * n
    for i, s in ij:
        v[i] += s
    return tuple(v)


def all_positive(typ, n):
    """positive roots of the type, as exact vectors"""
    N = n + 1 if typ == "A" else n
    out = [e(N, (i, 1), (j, -1)) for i, j in combinations(range(N), 2)]
    if typ != "A":
        out += [e(N, (i, 1), (j, 1)) for i, j in combinations(range(N), 2)]
    if typ == "B":
        out += [e(N, (i, 1)) for i in range(N)]
    if typ == "C":
        out += [e(N, (i, 2)) for i in range(N)]
    return out


def simple(typ, n):
    N = n + 1 if typ == "A" else n
    out = [e(N, (i, 1), (i + 1, -1)) for i in range(N - 1)]
    if typ == "B":
        out.append(e(N, (N - 1, 1)))
    if typ == "C":
        out.append(e(N, (N - 1, 2)))
    if typ == "D":
        out.append(e(N, (N - 1, 1), (N - 2, 1)))
    return out


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def solve(M, b):
    n = len(M)
    T = [list(map(Fraction, row)) + [Fraction(x)] for row, x in zip(M, b)]
    for i in range(n):
        p = next(r for r in range(i, n) if T[r][i])
        T[i], T[p] = T[p], T[i]
        T[i] = [x / T[i][i] for x in T[i]]
        for r in range(n):
            if r != i and T[r][i]:
                f = T[r][i]
                T[r] = [x - f * y for x, y in zip(T[r], T[i])]
    return [row[-1] for row in T]


def exact_dim(typ, S):
    """Weyl's formula; the weight is defined by <w, coroot_i> = S_i, through coordinates on the simple coroots"""
    n = len(S)
    al = simple(typ, n)
    # positive coroots as combinations of simple coroots: solve in the simple roots
    G = [[dot(a, b) for b in al] for a in al]
    num, den = Fraction(1), Fraction(1)
    for r in all_positive(typ, n):
        c = solve(G, [dot(a, r) for a in al])  # r = sum c_i al_i
        # coroot r^ = sum c_i |al_i|^2/|r|^2 al_i^
        co = [ci * dot(a, a) / dot(r, r) for ci, a in zip(c, al)]
        num *= sum(x * (s + 1) for x, s in zip(co, S))
        den *= sum(co)
    assert (num / den).denominator == 1
    return int(num / den)


# known small dimensions, an independent anchor of the oracle itself
KNOWN = [("A", (1, 1), 8), ("A", (1, 0, 1), 15), ("B", (1, 0), 5), ("B", (0, 1), 4), ("B", (1, 0, 0), 7), ("B", (0, 0, 1), 8),
         ("B", (0, 1, 0), 21), ("C", (1, 0), 4), ("C", (0, 1), 5), ("C", (2, 0), 10), ("C", (0, 0, 1), 14), ("C", (1, 0, 0), 6),
         ("D", (1, 0, 0, 0), 8), ("D", (0, 0, 0, 1), 8), ("D", (0, 1, 0, 0), 28), ("D", (1, 1), 4), ("D", (2, 0), 3), ("D", (1, 0), 2)]


def rowset(x, what):
    x = O.arr(np.asarray(x, dtype=float), what)
    return sorted(tuple(round(float(v), 9) + 0.0 for v in row) for row in x)


def check_roots(case, ctx):
    m = mod()
    typ, n = case["typ"], case["n"]
    s = m.structure_algebra(typ, n)
    P = O.arr(np.asarray(s["PositiveRoots"], dtype=float), "positive roots")
    want = np.array([[float(x) for x in r] for r in all_positive(typ, n)])
    N = n + 1 if typ == "A" else n
    require(rowset(P, "positive roots") == rowset(want, "expected"), f"{typ}{n}: positive roots")
    al = O.arr(np.asarray(s["SimpleRoots"], dtype=float), "simple roots")
    require(al.shape == (n, N), f"{typ}{n}: simple roots {al.shape}")
    ctx.label(typ)
    ctx.nontrivial(n >= 2)
    # every simple root is positive, every positive root is a nonnegative integer combination of them
    require(set(rowset(al, "simple")) <= set(rowset(P, "P")), f"{typ}{n}: a simple root is not positive")
    c, res, *_ = np.linalg.lstsq(al.T, P.T, rcond=None)
    close(al.T @ c, P.T, f"{typ}{n}: positive roots in the span of the simple roots", 1e-9)
    close(c, np.round(c), f"{typ}{n}: integer coefficients", 1e-9)
    require(np.min(np.round(c)) >= 0, f"{typ}{n}: coefficients of one sign")
    # closed under the reflections
    both = set(rowset(np.concatenate([P, -P]), "roots"))
    for a in al:
        R = P - np.outer(2 * P @ a / (a @ a), a)
        require(set(rowset(R, "reflected")) <= both, f"{typ}{n}: not closed under reflections")
    # Cartan matrix
    C = O.arr(s["CartanMatrix"], "Cartan matrix")
    O.has_shape(C, (n, n), "Cartan matrix")
    close(C, [[2 * (a @ b) / (a @ a) for b in al] for a in al], f"{typ}{n}: Cartan matrix", 1e-9)
    close(C, np.round(C), "integer entries", 1e-9)
    det = {"A": n + 1, "B": 2, "C": 2, "D": 4}[typ]
    require(abs(np.linalg.det(C) - det) < 1e-6 * det, f"{typ}{n}: determinant {np.linalg.det(C)}")
    # the diagram: one numbered node per simple root, one bond per pair that is not orthogonal
    text = s.get("Dynkin")
    if isinstance(text, str) and (typ != "D" or n >= 3):
        nodes, numbers = re.findall(r"\b0\b", text), re.findall(r"\b[1-9]\d*\b", text)
        require(len(nodes) == n and sorted(map(int, numbers)) == list(range(1, n + 1)), f"{typ}{n}: diagram\n{text}")
        bonds = [len(re.findall(b, text)) for b in (r"---|\|", "=>=", "=<=")]
        double = int(typ in "BC")
        require(bonds == [n - 1 - double, int(typ == "B"), int(typ == "C")], f"{typ}{n}: bonds of the diagram\n{text}")
    # fundamental weights are dual to the simple coroots
    w = O.arr(np.asarray(s["FundamentalWeights"], dtype=float), "fundamental weights")
    require(w.shape == (n, N), f"{typ}{n}: fundamental weights {w.shape}")
    D = np.array([[2 * (x @ a) / (a @ a) for a in al] for x in w])
    close(D, np.eye(n), f"{typ}{n}: fundamental weights", 1e-9)
    # Weyl vector
    rho = O.arr(np.asarray(s["WeylVector"], dtype=float), "Weyl vector")
    close(rho, want.sum(0) / 2, "Weyl vector", 1e-9)
    close([2 * (rho @ a) / (a @ a) for a in al], np.ones(n), "Weyl vector", 1e-9)
    if typ == "A":
        close(w.sum(0), rho, "sum of the fundamental weights", 1e-9)
    # Coxeter number, highest root
    h = {"A": n + 1, "B": 2 * n, "C": 2 * n, "D": 2 * n - 2}[typ]
    require(abs(float(s["CoxeterNumber"]) - h) < 1e-9, f"{typ}{n}: Coxeter number {s['CoxeterNumber']}")
    top = O.arr(np.asarray(s["MaximalRoots"], dtype=float), "highest root")
    if typ != "D" or n >= 3:
        require(tuple(np.round(top, 9) + 0.0) in set(rowset(P, "P")), f"{typ}{n}: highest root is not a root")
        require(np.all(al @ top > -1e-9), f"{typ}{n}: highest root is not dominant")
        k = np.argmax(c.sum(0))
        close(P[k], top, f"{typ}{n}: highest root", 1e-9)
        require(int(round(c.sum(0).max())) == h - 1, f"{typ}{n}: height of the highest root")
        # adjoint representation
        require(round(float(m.weyl_dim(top, P, rho))) == 2 * len(P) + n, f"{typ}{n}: dimension of the adjoint")


def sweep_roots(tier):
    m = 13 if tier == "quick" else 17
    return [dict(typ=t, n=n) for t in "ABCD" for n in range(1 if t == "A" else 2, m)]


def check_cartan(case, ctx):
    """a change of the basis of simple roots by an orthogonal map and a positive scale leaves the Cartan matrix"""
    m = mod()
    typ, n = case["typ"], case["n"]
    al = np.array([[float(x) for x in r] for r in simple(typ, n)])
    R = np.linalg.qr(np.random.default_rng(case["seed"]).normal(size=(al.shape[1],) * 2))[0]
    perm = np.random.default_rng(case["seed"] + 1).permutation(n)
    C = np.asarray(m.cartan_matrix(list(al)))
    C2 = np.asarray(m.cartan_matrix([case["scale"] * R @ al[i] for i in perm]))
    close(C, [[2 * (a @ b) / (a @ a) for b in al] for a in al], "Cartan matrix", 1e-9)
    close(C2, C[np.ix_(perm, perm)], "Cartan matrix of rotated roots", 1e-8)
    ctx.nontrivial(n >= 2)
    # dimension does not depend on rotation and order
    P = np.array([[float(x) for x in r] for r in all_positive(typ, n)])
    S = [int(x) for x in np.random.default_rng(case["seed"] + 2).integers(0, 3, size=n)]
    w = np.linalg.lstsq(np.array([2 * a / (a @ a) for a in al]), np.array(S, float), rcond=None)[0]
    d = exact_dim(typ, S)
    ctx.label(f"{typ} dim 1e{len(str(d)) - 1}")
    for f in (lambda v: v, lambda v: case["scale"] * (R @ v)):
        roots = [f(p) for p in P]
        got = float(m.weyl_dim(f(w), roots, sum(roots) / 2))
        require(abs(got - d) <= 1e-9 * d, f"{typ}{n} {S}: Weyl dimension {got} != {d}")


@st.composite
def st_cartan(draw, tier):
    typ = draw(st.sampled_from("ABCD"))
    n = draw(st.integers(1 if typ == "A" else (3 if typ == "D" else 2), draw(st.sampled_from([6, 6, 10]))))
    return dict(typ=typ, n=n, seed=draw(st.integers(0, 10**6)), scale=draw(st.sampled_from([1.0, 2.0, 0.5, 3.7])))


def classes():
    try:
        from lie_nn._src.irreps.son import SON
        from lie_nn._src.irreps.spn import SPN
    except ImportError:
        raise Skip()
    return dict(SPN=SPN, SON=SON)


def type_of(cls, S):
    return "C" if cls == "SPN" else ("D" if len(S) % 2 == 0 else "B")


def check_labels(case, ctx):
    for t, S, d in KNOWN:
        assert exact_dim(t, S) == d, (t, S, d)
    cls = classes()[case["cls"]]
    S = tuple(case["S"])
    typ = type_of(case["cls"], S)
    r = cls(S=S)
    d = exact_dim(typ, S)
    ctx.label(f"{case['cls']} rank {len(S)}")
    ctx.nontrivial(any(S) and d > len(S))
    require(type(r.dim) is int or isinstance(r.dim, (int, np.integer)), "dim is an integer")
    require(r.dim == d if d < 10**12 else abs(r.dim - d) <= 1e-11 * d, f"{cls.__name__}{S}: dim {r.dim} != {d}")
    require(bool(r.is_scalar()) == (not any(S)) and (r.dim == 1) == (not any(S)), "is_scalar")
    if d < 1000:
        require(np.asarray(r.discrete_generators()).shape == (0, d, d), "no discrete generators")
    text = "(" + ",".join(map(str, S)) + ")"
    require(cls.from_string(text) == r, f"from_string({text!r})")
    T = tuple(case["T"])
    q = cls(S=T)
    require((r == q) == (S == T) and (r != q) == (S != T), "equality")
    require((r < q) == (S < T), "order")
    if S == T:
        require(hash(r) == hash(q), "hash")


@st.composite
def st_labels(draw, tier):
    n = draw(st.one_of(st.integers(2, 5), st.integers(2, 7), st.integers(2, 11)))
    el = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 5] if n > 3 else [0, 0, 1, 1, 2, 3, 4, 7, 11])
    S = draw(st.lists(el, min_size=n, max_size=n))
    T = draw(st.one_of(st.just(S), st.lists(el, min_size=n, max_size=n)))
    if draw(st.booleans()):
        T = list(T)
        i = draw(st.integers(0, n - 1))
        T[i] = draw(el)
    # rank 3 is needed for a simple B_n with odd n; even n is D_n
    return dict(cls=draw(st.sampled_from(["SPN", "SON"])), S=S, T=T)


def sweep_labels(tier):
    out = []
    for cls in ("SPN", "SON"):
        for n, m in ((2, 5), (3, 3), (4, 2)) if tier == "quick" else ((2, 9), (3, 5), (4, 3), (5, 2)):
            for S in product(range(m + 1), repeat=n):
                out.append(dict(cls=cls, S=list(S), T=list(S[::-1])))
    return out


def check_adjoint(case, ctx):
    try:
        from lie_nn._src.irreps.son import SON_adjoint
    except ImportError:
        raise Skip()
    import lie_nn as lie

    n = case["n"]
    r = SON_adjoint(n)
    X = O.arr(r.continuous_generators(), "X")
    k = n * (n - 1) // 2
    require(X.shape == (k, n, n), f"so({n}): generators {X.shape}, expected {(k, n, n)}")
    require(np.asarray(r.discrete_generators()).shape == (0, n, n), "discrete generators")
    require(O.rank(X.reshape(k, -1)) == k, f"so({n}): the generators are dependent")
    # Fulton-Harris: the form pairing e_i with e_{i+n/2}
    Q = np.zeros((n, n))
    h = n // 2
    for i in range(h):
        Q[i, i + h] = Q[i + h, i] = 1
    if n % 2:
        Q[n - 1, n - 1] = 1
    for x in X:
        close(x.T @ Q + Q @ x, np.zeros((n, n)), f"so({n}): the bilinear form is not preserved", 1e-10)
    A = lie.util.infer_algebra_from_generators(X)
    require(A is not None, f"so({n}): not closed under commutators")
    close(np.einsum("ijk,kab->ijab", A, X), np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X), "A", 1e-8)
    ctx.nontrivial(n > 3)
    # the defining representation of so(n) is irreducible for n >= 3, and its Killing form is non degenerate
    require(O.hom_dim(X, X) == 1, f"so({n}): the natural representation is not irreducible")
    K = np.einsum("iab,jba->ij", X, X)
    require(np.linalg.matrix_rank(K, tol=1e-8) == k, f"so({n}): degenerate trace form")
    require(r.dim == n, "dim")


def components(tier):
    return [
        Component("root system", check_roots, "rank >= 2", sweep=sweep_roots),
        Component("rotated roots", check_cartan, "rank >= 2", strategy=st_cartan, n=dict(quick=800, thorough=6000), shards=8),
        Component("labels", check_labels, "a non trivial irrep", strategy=st_labels, n=dict(quick=1600, thorough=8000), sweep=sweep_labels),
        Component("orthogonal generators", check_adjoint, "n > 3", sweep=lambda tier: [dict(n=n) for n in range(3, 10 if tier == "quick" else 14)]),
    ]
