"""Highest weight labels of SU(N) for every N: patterns, weights, ladder operators, generators, products."""
from collections import Counter

from .common import *

ASSUMPTIONS = [
    "the pattern calculus is not exported at top level; the component that looks at a function is skipped (and "
    "reported as such) if that function is not there",
]


def fn(*names):
    try:
        from lie_nn._src.irreps import sun as m
    except ImportError:
        raise Skip()
    out = []
    for n in names:
        if not hasattr(m, n):
            raise Skip()
        out.append(getattr(m, n))
    return out if len(out) > 1 else out[0]


def patterns(S):
    """all triangular interlacing arrays, independently"""
    S = tuple(S)
    if len(S) == 1:
        return [(S,)]
    import itertools

    out = []
    for T in itertools.product(*[range(S[i + 1], S[i] + 1) for i in range(len(S) - 1)]):
        out += [(S,) + p for p in patterns(T)]
    return out


def p_weight(M):
    """sum of each row minus the sum of the next row, first row first"""
    s = [sum(r) for r in M] + [0]
    return tuple(s[i] - s[i + 1] for i in range(len(M)))


# ------------------------------------------------------------------------------------ patterns
def check_patterns(case, ctx):
    S = tuple(case["S"])
    dim, S_to_Ss, S_to_Ms, to_M, to_index, valid = fn("dim", "S_to_Ss", "S_to_Ms", "index_to_M", "M_to_index", "is_valid_M")
    d = O.weyl_dim_sun(S)
    require(dim(S) == d, f"dim{S} = {dim(S)} != {d}")
    want = patterns(S)
    assert len(want) == d
    Ms = [tuple(tuple(int(x) for x in row) for row in M) for M in S_to_Ms(S)]
    ctx.label(f"n={len(S)}")
    ctx.nontrivial(d > 2)
    require(len(Ms) == d, f"{S}: {len(Ms)} patterns, expected {d}")
    require(len(set(Ms)) == d, f"{S}: a pattern is listed twice")
    require(set(Ms) == set(want), f"{S}: wrong set of patterns")
    for i in range(d):
        require(to_M(S, i) == Ms[i], f"{S}: pattern number {i}: {to_M(S, i)} != {Ms[i]}")
        require(to_index(Ms[i]) == i, f"{S}: index of {Ms[i]}: {to_index(Ms[i])} != {i}")
        require(bool(valid(Ms[i])), f"{Ms[i]} is a valid pattern")
    nxt = [tuple(x) for x in S_to_Ss(S)]
    require(sorted(nxt) == sorted({M[1] for M in Ms if len(M) > 1}), f"{S}: next rows")
    # a pattern with one entry off the interlacing condition is refused
    M = Ms[case["pick"] % d]
    if len(S) > 1:
        k = 1 + case["row"] % (len(S) - 1)
        j = case["col"] % len(M[k])
        for delta in (1, -1, case["delta"]):
            N = [list(r) for r in M]
            N[k][j] += delta
            N = tuple(map(tuple, N))
            require(bool(valid(N)) == (N in set(want)), f"validity of {N}")
    try:
        weight, zweight = fn("M_to_p_weight", "M_to_z_weight")
    except Skip:
        return
    for M in Ms:
        w = tuple(weight(M))
        require(w == p_weight(M), f"{M}: pattern weight {w} != {p_weight(M)}")
        require(sum(w) == sum(S) and len(w) == len(S), "total")
        z = tuple(float(x) for x in zweight(M))
        require(z == tuple((w[i + 1] - w[i]) / 2 for i in range(len(w) - 1)), f"{M}: z weight {z}")
    # the multiset of weights is that of the irrep, and invariant under the Weyl group
    got = Counter(tuple(weight(M)) for M in Ms)
    wts = O.sun_weights(S)
    require(got == Counter(wts), f"{S}: weights")
    for w, m in got.items():
        require(got[tuple(sorted(w))] == m, f"{S}: the weights are not symmetric")


@st.composite
def st_S(draw, tier, lo=1, last=True, maxdim=None):
    n = draw(st.one_of(st.integers(lo, 5), st.integers(lo, 5), st.integers(2, 9)))
    maxdim = maxdim or (90 if tier == "quick" else 400)
    S = [0] * n
    if n <= 3 and draw(st.integers(0, 3)) == 0:  # long rows
        a = draw(st.integers(1, maxdim))
        b = draw(st.sampled_from([0, 1, a - 1, a]))
        T = ([a, b] if n == 3 else [a] * (n - 1)) + [0]
        if O.weyl_dim_sun(T) <= maxdim:
            S = T
    for i in draw(st.lists(st.integers(0, max(0, n - 2)), min_size=draw(st.integers(0, 5)), max_size=12)):
        # raise the first i+1 entries by one
        T = [x + 1 if j <= i else x for j, x in enumerate(S)] if n > 1 else S
        if O.weyl_dim_sun(T) <= maxdim:
            S = T
    if last:
        k = draw(st.sampled_from([0, 0, 0, 1, 3]))
        S = [x + k for x in S]
    return S


@st.composite
def st_patterns(draw, tier):
    return dict(S=draw(st_S(tier, lo=draw(st.sampled_from([1, 2, 2, 2, 2, 2])))), pick=draw(st.integers(0, 400)), row=draw(st.integers(0, 8)), col=draw(st.integers(0, 8)), delta=draw(st.sampled_from([2, -2, 7, -7])))


# ------------------------------------------------------------------------------------ ladders
def check_ladders(case, ctx):
    S = tuple(case["S"])
    up, low, jz = fn("upper_ladder_matrices", "lower_ladder_matrices", "Jz_matrices")
    n = len(S)
    d = O.weyl_dim_sun(S)
    Jp, Jm, Jz = (O.arr(f(S), "ladder") for f in (up, low, jz))
    for J in (Jp, Jm, Jz):
        require(J.shape == (n - 1, d, d), f"{S}: shape {J.shape}")
    ctx.label(f"n={n}")
    ctx.nontrivial(d > 2 and n > 2)
    close(Jm, np.transpose(Jp, (0, 2, 1)), f"{S}: lowering is the adjoint of raising", 1e-9)
    com = lambda a, b: a @ b - b @ a  # noqa: E731
    sc = 1 + mat_scale(Jp) ** 2
    C = 2 * np.eye(n - 1) - np.eye(n - 1, k=1) - np.eye(n - 1, k=-1)
    for a in range(n - 1):
        for b in range(n - 1):
            want = 2 * Jz[a] if a == b else np.zeros((d, d))
            close(com(Jp[a], Jm[b]), want, f"{S}: [J+_{a}, J-_{b}]", 1e-9, sc)
            close(com(Jz[a], Jz[b]), np.zeros((d, d)), "[Jz, Jz]", 1e-9, sc)
            close(com(Jz[a], Jp[b]), C[a, b] / 2 * Jp[b], f"{S}: [Jz_{a}, J+_{b}]", 1e-9, sc)
            if a != b:
                X = Jp[b]
                for _ in range(1 - int(C[a, b])):
                    X = com(Jp[a], X)
                close(X, np.zeros((d, d)), f"{S}: Serre relation {a}, {b}", 1e-9, sc**1.5)
    # exactly one highest weight state, with the labels as weights
    top = np.linalg.svd(np.concatenate(list(Jp)))[1] if n > 1 else np.zeros(1)
    require(int(np.sum(top < 1e-9)) == 1, f"{S}: highest weight states")
    if n > 1:
        v = np.linalg.svd(np.concatenate(list(Jp)))[2][-1]
        for a in range(n - 1):
            require(abs(v @ Jz[a] @ v - (S[n - 2 - a] - S[n - 1 - a]) / 2) < 1e-9, f"{S}: highest weight")


@st.composite
def st_ladders(draw, tier):
    return dict(S=draw(st_S(tier, lo=2, maxdim=36 if tier == "quick" else 84)))


# ------------------------------------------------------------------------------------ generators
def klass(n):
    import lie_nn as lie

    try:
        from lie_nn._src.irreps.sun import SUN

        return SUN
    except ImportError:
        if n in (2, 3, 4):
            return {2: lie.irreps.SU2_, 3: lie.irreps.SU3, 4: lie.irreps.SU4}[n]
        raise Skip()


def check_generators(case, ctx):
    S = tuple(case["S"])
    n = len(S)
    cls = klass(n)
    r = cls(S)
    d = O.weyl_dim_sun(S)
    k = n * n - 1
    F = cls((1,) + (0,) * (n - 1))
    A = O.arr(r.algebra(), "algebra")
    X = O.arr(r.continuous_generators(), "generators")
    Y = O.arr(F.continuous_generators(), "generators")
    require(A.shape == (k, k, k) and X.shape == (k, d, d) and Y.shape == (k, n, n), f"{S}: shapes {A.shape} {X.shape}")
    require(np.asarray(r.discrete_generators()).shape == (0, d, d), "discrete generators")
    ctx.label(f"n={n}")
    ctx.nontrivial(d > n)
    require(np.array_equal(A, O.arr(F.algebra(), "algebra")), f"{S}: the structure constants depend on the label")
    close(A, -np.transpose(A, (1, 0, 2)), "antisymmetric", 1e-12)
    is_rep_of(r, A, f"SU({n}){S}", 1e-7)
    is_rep_of(F, A, f"SU({n}) fundamental", 1e-7)
    # a basis of the traceless antihermitian matrices in the defining representation
    require(O.rank(np.concatenate([Y.real, Y.imag], axis=1).reshape(k, -1)) == k, "independent generators")
    for x in list(X) + list(Y):
        close(x, -x.conj().T, f"{S}: antihermitian", 1e-9)
        close(np.trace(x), 0, f"{S}: traceless", 1e-8, sc_of(x))
    # character at a random element through the Jacobi-Trudi formula
    a = np.array(case["a"][:k])
    lam = np.linalg.eigvals(np.einsum("i,iab->ab", a, Y))
    ev = np.exp(np.linalg.eigvals(np.einsum("i,iab->ab", a, X)))
    close(np.sum(ev), O.schur_poly(S, np.exp(lam)), f"SU({n}){S}: character", 1e-6, d)
    # quadratic Casimir relative to the defining representation
    K = np.einsum("iab,jba->ij", Y, Y).real
    Ki = np.linalg.inv(K)
    cas = np.einsum("ij,iab,jbc->ac", Ki, X, X)
    c2 = lambda S: sum(s * (s - 2 * i + n - 1) for i, s in enumerate(S)) - sum(S) ** 2 / n  # noqa: E731
    want = c2(S) * np.eye(d)  # normalised so that the fundamental gives (n^2-1)/n
    close(cas, want, f"SU({n}){S}: Casimir", 1e-7, 1 + c2(S))
    require(r.dim == d and r.lie_dim == k and bool(r.is_scalar()) == (d == 1), "dim")


def sc_of(x):
    return 1 + mat_scale(x) * len(x)


@st.composite
def st_generators(draw, tier):
    S = draw(st_S(tier, lo=2, last=False, maxdim=30 if tier == "quick" else 70))
    return dict(S=S, a=draw(st.lists(st.sampled_from([0.0, 0.3, -0.5, 1.0, 0.7, -1.3]), min_size=80, max_size=80)))


# ------------------------------------------------------------------------------------ products
def check_product(case, ctx):
    S1, S2 = tuple(case["S1"]), tuple(case["S2"])
    n = len(S1)
    cls = klass(n)
    want = O.sun_product(S1, S2)
    assert sum(O.weyl_dim_sun(s) * m for s, m in want.items()) == O.weyl_dim_sun(S1) * O.weyl_dim_sun(S2)
    got = [tuple(int(x) for x in r.S) for r in cls(S1) * cls(S2)]
    ctx.label(f"n={n}" + (" with multiplicity" if max(want.values()) > 1 else ""))
    ctx.nontrivial(len(want) > 2)
    require(len(got) == len(set(got)), f"{S1} x {S2}: an irrep is listed twice")
    require(set(got) == set(want), f"{S1} x {S2}: {sorted(got)} != {sorted(want)}")
    back = [tuple(r.S) for r in cls(S2) * cls(S1)]
    require(sorted(back) == sorted(got), f"{S1} x {S2} depends on the order")
    try:
        mul_rep = fn("mul_rep")
    except Skip:
        return
    cnt = Counter(tuple(int(x) for x in s) for s in mul_rep(S1, S2))
    require(cnt == Counter(want), f"{S1} x {S2}: multiplicities {dict(cnt)} != {want}")


@st.composite
def st_product(draw, tier):
    n = draw(st.one_of(st.integers(2, 5), st.integers(2, 5), st.integers(2, 8)))
    m = 40 if tier == "quick" else 150

    def one():
        S = [0] * n
        if n == 2 and draw(st.booleans()):
            return [draw(st.integers(0, m)), 0]
        for i in draw(st.lists(st.integers(0, n - 2), max_size=9)):
            T = [x + 1 if j <= i else x for j, x in enumerate(S)]
            if O.weyl_dim_sun(T) <= m:
                S = T
        return S

    return dict(S1=one(), S2=one())


def sweep_product(tier):
    out = []
    for n, m in ((2, 12), (3, 27), (4, 20), (5, 15)) if tier == "quick" else ((2, 30), (3, 64), (4, 64), (5, 45)):
        labs = []

        def rec(S):
            if O.weyl_dim_sun(S) > m or S in labs:
                return
            labs.append(S)
            for i in range(n - 1):
                rec(tuple(x + 1 if j <= i else x for j, x in enumerate(S)))

        rec((0,) * n)
        out += [dict(S1=list(a), S2=list(b)) for a in labs for b in labs]
    return out


# ------------------------------------------------------------------------------------ SU(5) and beyond
def check_cg(case, ctx):
    S1, S2 = tuple(case["S1"]), tuple(case["S2"])
    n = len(S1)
    cls = klass(n)
    want = O.sun_product(S1, S2)
    S3 = sorted(want)[case["pick"] % len(want)] if case["other"] is None else tuple(case["other"])
    r1, r2, r3 = cls(S1), cls(S2), cls(S3)
    cg = O.arr(cls.clebsch_gordan(r1, r2, r3), "CG")
    m = want.get(S3, 0)
    require(cg.shape == (m, r1.dim, r2.dim, r3.dim), f"{S1} x {S2} -> {S3}: shape {cg.shape}, multiplicity {m}")
    ctx.label(f"n={n} multiplicity {m}")
    ctx.nontrivial(m > 0 and r1.dim > 1 and r2.dim > 1)
    if m == 0:
        return
    X1, X2, X3 = (r.continuous_generators() for r in (r1, r2, r3))
    lhs = np.einsum("zijk,dlk->zdijl", cg, X3)
    rhs = np.einsum("dil,zijk->zdljk", X1, cg) + np.einsum("djl,zijk->zdilk", X2, cg)
    close(lhs, rhs, f"{S1} x {S2} -> {S3}: equivariance", 1e-6, 1 + mat_scale(X1, X2, X3))
    require(O.rank(cg.reshape(m, -1)) == m, f"{S1} x {S2} -> {S3}: dependent")


@st.composite
def st_cg(draw, tier):
    n, pool = draw(st.sampled_from([
        (5, [(0,) * 5, (1, 0, 0, 0, 0), (1, 1, 1, 1, 0)]),
        (3, [(1, 0, 0), (1, 1, 0), (2, 1, 0), (2, 0, 0)]),
        (2, [(0, 0), (1, 0), (2, 0), (3, 0), (5, 0)]),
        (4, [(1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 0)]),
    ] + ([(5, [(1, 1, 0, 0, 0), (1, 0, 0, 0, 0)]), (6, [(1, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 0)])] if tier != "quick" else [])))
    a, b = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
    other = draw(st.sampled_from([None, None, None, pool[-1]]))
    return dict(S1=list(a), S2=list(b), pick=draw(st.integers(0, 5)), other=list(other) if other else None)


def components(tier):
    return [
        Component("patterns", check_patterns, "more than two patterns", strategy=st_patterns, n=dict(quick=1600, thorough=8000)),
        Component("ladders", check_ladders, "N > 2 and dimension > 2", strategy=st_ladders, n=dict(quick=480, thorough=2400)),
        Component("generators", check_generators, "dimension above that of the defining representation", strategy=st_generators, n=dict(quick=320, thorough=1600)),
        Component("products", check_product, "more than two irreps in the product", strategy=st_product, n=dict(quick=1200, thorough=6000), sweep=sweep_product),
        Component("coefficients", check_cg, "a non zero coupling of two non trivial irreps", strategy=st_cg, n=dict(quick=160, thorough=800)),
    ]
