"""Symmetric group representations and regular representations."""
from .repcases import *
import itertools
import math

ASSUMPTIONS = ["S_n for n up to 40 (7 for decompositions); groups of order up to 120 for regular representations (12 for their decomposition)"]


def gens_perm(n):
    """the permutations represented by the discrete generators"""
    if n == 1:
        return []
    t = (1, 0) + tuple(range(2, n))
    if n == 2:
        return [t]
    return [t, tuple((i + 1) % n for i in range(n))]


def compose(p, q):
    return tuple(p[i] for i in q)


def pmat(p):
    m = np.zeros((len(p), len(p)))
    for i, j in enumerate(p):
        m[j, i] = 1
    return m


def mk(kind, n):
    import lie_nn as lie

    return dict(nat=lie.finite.Sn_natural, std=lie.finite.Sn_standard, triv=lie.finite.Sn_trivial)[kind](n)


def check_words(case, ctx):
    """Words in the generators are represented consistently with permutations."""
    n, word = case["n"], case["word"]
    gp = gens_perm(n)
    ctx.nontrivial(n >= 3 and len(word) > 1)
    ctx.label(f"n={n}")
    nat, triv = mk("nat", n), mk("triv", n)
    reps = [nat, triv] + ([mk("std", n)] if n >= 2 else [])
    for r, d in zip(reps, (n, 1, n - 1)):
        H = O.has_shape(r.discrete_generators(), (len(gp), d, d), "H")
        O.has_shape(r.continuous_generators(), (0, d, d), "X")
        O.has_shape(r.algebra(), (0, 0, 0), "A")
        require(r.dim == d and r.lie_dim == 0, "dim")
        t = r.create_trivial()
        O.has_shape(t.X, (0, 1, 1), "create_trivial: X")
        O.has_shape(t.A, (0, 0, 0), "create_trivial: A")
        require(t.dim == 1 and np.all(t.X == 0) and np.array_equal(t.H, np.ones((len(gp), 1, 1))), "create_trivial")
        require(t.lie_dim == 0 and t.is_trivial(), "create_trivial")
    p = tuple(range(n))
    mats = [np.eye(n), np.eye(1), np.eye(n - 1)]
    for w in word:
        if not gp:
            break
        i = w % len(gp)
        e = [0] * len(gp)
        e[i] = 1 if w < 8 else -1
        q = gp[i]
        if e[i] < 0:
            q = tuple(sorted(range(n), key=lambda j: q[j]))
        p = compose(p, q)
        for j, r in enumerate(reps):
            mats[j] = mats[j] @ r.exp_map(np.zeros(0), np.array(e))
    close(mats[0], pmat(p), "natural representation", 1e-9)
    close(mats[1], np.eye(1), "trivial representation", 1e-12)
    if n >= 2:
        # f_i = e_i - e_0
        F = np.zeros((n, n - 1))
        F[0, :] = -1
        for i in range(1, n):
            F[i, i - 1] = 1
        close(F @ mats[2], pmat(p) @ F, "standard representation in the basis e_i - e_0", 1e-9)
        fix = sum(p[i] == i for i in range(n))
        close(np.trace(mats[2]), fix - 1, "character of the standard representation", 1e-9)


@st.composite
def st_words(draw, tier):
    return dict(n=draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 40))), word=draw(st.lists(st.integers(0, 15), max_size=14)))


def check_structure(case, ctx):
    import lie_nn as lie

    n = case["n"]
    ctx.nontrivial(n >= 3)
    nat, triv = mk("nat", n), mk("triv", n)
    H = nat.discrete_generators()
    if n >= 3:
        t, c = H
        for r in (nat, mk("std", n), triv):
            t, c = r.discrete_generators()
            one = np.eye(r.dim)
            P = np.linalg.matrix_power
            require(np.array_equal(t @ t, one), "t^2 = 1")
            require(np.array_equal(P(c, n), one), "c^n = 1")
            require(np.array_equal(P(t @ c, n - 1), one), "(tc)^(n-1) = 1")
            for j in range(2, n // 2 + 1):
                u = t @ P(c, j) @ t @ np.linalg.inv(P(c, j))
                close(u @ u, one, f"[t, c^{j}]^2 = 1", 1e-9)
    require(triv.is_trivial() and lie.is_irreducible(triv), "trivial")
    if n >= 2:
        std = mk("std", n)
        for r, irr in ((nat, False), (std, True)):
            require(bool(lie.is_irreducible(r)) is irr, f"irreducibility of {r}")
        if n >= 3:
            require(not std.is_trivial() and not nat.is_trivial(), "not trivial")
        m = dict(nat=nat, std=std, triv=triv)
        hom = {("nat", "nat"): 2, ("nat", "std"): 1, ("nat", "triv"): 1, ("std", "std"): 1, ("std", "triv"): 0, ("triv", "triv"): 1}
        for (a, b), k in hom.items():
            for x, y in ((a, b), (b, a)):
                S = lie.infer_change_of_basis(m[x], m[y])
                require(S.shape == (k, m[y].dim, m[x].dim), f"Hom({x},{y}) has shape {S.shape}")
                for h1, h2 in zip(m[x].H, m[y].H):
                    close(h2 @ S, S @ h1, f"Hom({x},{y})", 1e-8)
        red = lie.reduce(nat)
        dims = sorted((x.rep.dim, x.mul) for x in red.irreps)
        want = sorted([(1, 1), (n - 1, 1)])
        require(dims == want, f"natural = {dims}")
        O.same_dense(red, triple(nat), "reduced natural", 1e-7)
    if 2 <= n <= 5:
        # characters of products: <std x std, nat> etc. by counting
        std = mk("std", n)
        tp = lie.tensor_product(std, nat)
        O.same_dense(tp, O.d_tensor(triple(std), triple(nat)), "tensor product", 1e-10)
        k = sum((f(p) - 1) * f(p) * (f(p) - 1) for p in itertools.permutations(range(n)))
        k //= math.factorial(n)
        S = lie.infer_change_of_basis(tp, std)
        require(len(S) == k, f"<std x nat, std> = {len(S)}, expected {k}")
        cg = lie.clebsch_gordan(std, nat, std)
        require(cg.shape == (k, std.dim, n, std.dim), f"clebsch_gordan {cg.shape}")
        res = O.cg_residual(cg, triple(std), triple(nat), triple(std))
        require(res < 1e-8, "coupling of S_n representations")


def f(p):
    return sum(p[i] == i for i in range(len(p)))


def st_group(n, gens):
    """subgroup of S_n generated by gens"""
    els = {tuple(range(n))}
    todo = list(els)
    while todo:
        p = todo.pop()
        for q in gens:
            r = compose(p, tuple(q))
            if r not in els:
                els.add(r)
                todo.append(r)
    return sorted(els)


def check_regular(case, ctx):
    import lie_nn as lie

    els = st_group(case["n"], case["gens"])
    rs = np.random.RandomState(case["s"])
    els = [els[i] for i in rs.permutation(len(els))]
    N = len(els)
    if N > case.get("max", 24):
        return
    pos = {p: i for i, p in enumerate(els)}
    table = np.array([[pos[compose(a, b)] for b in els] for a in els])
    t0 = table.copy()
    ctx.nontrivial(N > 2)
    abelian = bool(np.array_equal(table, table.T))
    ctx.label(f"order {N}" + ("" if abelian else " non-abelian"))
    D = O.has_shape(lie.util.regular_representation(table), (N, N, N), "regular representation")
    require(np.array_equal(table, t0), "table modified")
    for g in range(N):
        for h in range(N) if N <= 24 else rs.randint(0, N, 12):
            e = np.zeros(N)
            e[h] = 1
            w = np.zeros(N)
            w[table[g, h]] = 1
            require(np.array_equal(D[g] @ e, w), "D(g) e_h = e_gh")
            require(np.array_equal(D[g] @ D[h], D[table[g, h]]), "D(g) D(h) = D(gh)")
    ident = pos[tuple(range(case["n"]))]
    require(np.array_equal(np.trace(D, axis1=1, axis2=2), N * (np.arange(N) == ident)), "character")
    if N <= 12:
        # every irrep appears as often as its dimension
        Ys = lie.util.decompose_rep_into_irreps(D.astype(np.float64))
        require(sum(Y.shape[1] for Y in Ys) == N, "dimensions add up")
        classes = []
        for Y in Ys:
            chi = np.trace(Y, axis1=1, axis2=2)
            for c in classes:
                if np.allclose(c[0], chi, atol=1e-6):
                    c[1] += 1
                    break
            else:
                classes.append([chi, 1, Y.shape[1]])
        nclass = len({frozenset(pos[compose(compose(a, b), inv(a))] for a in els) for b in els})
        require(len(classes) == nclass, f"{len(classes)} irreps, {nclass} conjugacy classes")
        for chi, m, d in classes:
            require(m == d, f"an irrep of dimension {d} appears {m} times")
            require(abs(np.vdot(chi, chi) / N - 1) < 1e-6, "a component is not irreducible")


def inv(p):
    return tuple(sorted(range(len(p)), key=lambda i: p[i]))


@st.composite
def st_regular(draw, tier):
    n = draw(st.sampled_from([2, 3, 4, 4, 5, 5, 6]))
    gens = draw(st.lists(st.permutations(range(n)).map(list), min_size=1, max_size=2))
    return dict(n=n, gens=gens, s=draw(st.integers(0, 1000)))


def named(tier):
    out = []
    c = [
        (2, [[1, 0]]), (3, [[1, 2, 0]]), (3, [[1, 0, 2], [1, 2, 0]]), (4, [[1, 2, 3, 0]]), (4, [[1, 0, 3, 2], [2, 3, 0, 1]]),
        (4, [[1, 2, 3, 0], [2, 1, 0, 3]]), (4, [[1, 2, 0, 3], [1, 0, 3, 2]]), (5, [[1, 2, 3, 4, 0], [0, 4, 3, 2, 1]]),
        (8, [[1, 2, 3, 0, 5, 6, 7, 4], [4, 7, 6, 5, 2, 1, 0, 3]]), (5, [[1, 2, 0, 4, 3]]), (6, [[1, 2, 0, 4, 5, 3]]),
        (6, [[1, 2, 3, 4, 5, 0], [0, 5, 4, 3, 2, 1]]), (4, [[1, 0, 2, 3], [1, 2, 3, 0]]), (1, [[0]]), (7, [[1, 2, 3, 4, 5, 6, 0]]),
    ]
    for n, g in c:
        for s in range(2 if tier == "quick" else 6):
            out.append(dict(n=n, gens=g, s=s))
    # large orders
    c = [(5, [[1, 0, 2, 3, 4], [1, 2, 3, 4, 0]]), (5, [[1, 2, 0, 3, 4], [0, 1, 3, 4, 2]]), (7, [[1, 2, 0, 3, 4, 5, 6], [0, 1, 2, 4, 5, 6, 3]]),
         (8, [[1, 0, 2, 3, 4, 5, 6, 7], [1, 2, 3, 0, 4, 5, 6, 7], [0, 1, 2, 3, 5, 4, 6, 7]]), (29, [list(range(1, 29)) + [0]]), (37, [list(range(1, 37)) + [0]])]
    return out + [dict(n=n, gens=g, s=i, max=130) for i, (n, g) in enumerate(c)]


def components(tier):
    return [
        Component("words", check_words, "n >= 3 and a word of length > 1", strategy=st_words, n=dict(quick=6000, thorough=12000), shards=8),
        Component("structure", check_structure, "n >= 3", sweep=lambda t: [dict(n=n) for n in range(1, 8 if t == "quick" else 10)]),
        Component("regular", check_regular, "order > 2", strategy=st_regular, n=dict(quick=2000, thorough=3000), shards=8),
        Component("named groups", check_regular, "order > 2", sweep=named),
    ]
