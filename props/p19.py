"""Reduced tensor products with index symmetries."""
from .rtpcases import *

ASSUMPTIONS = [
    "formulas whose symmetric subspace is empty are excluded (the library raises ValueError, see DESIGN)",
    "the library rounds to square roots of rationals: for a generic matrix Q symmetry is judged at 2e-3",
]
LETTERS = "ijklmnabcXYZ"


def closure(n, gens):
    S = {(1, tuple(range(n)))}
    todo = list(S)
    while todo:
        s, p = todo.pop()
        for t, q in gens:
            new = (s * t, tuple(p[q[i]] for i in range(n)))
            if new not in S:
                S.add(new)
                todo.append(new)
    return S


def space_dim(group, dims):
    """dimension of {T : T = s * T permuted} for the group of signed permutations"""
    tot = 0
    for s, p in group:
        seen, k = set(), 1
        for i in range(len(p)):
            if i in seen:
                continue
            j = i
            while j not in seen:
                seen.add(j)
                j = p[j]
            k *= dims[i]
        tot += s * k
    assert tot % len(group) == 0
    return tot // len(group)


def orbits(n, group):
    return [min(p[i] for _, p in group) for i in range(n)]


def check_symmetric(B, group, tol):
    n = B.ndim - 1
    for s, p in group:
        close(np.transpose(B, tuple(p) + (n,)), s * B, f"index symmetry {s}{p}", tol, max(1.0, mat_scale(B)))


def finish(g, reps, denses, res, group, withQ, order):
    tol = TOL[g] * 100
    dims, M = check_output(g, reps, denses, res, tol)
    want = space_dim(group, dims)
    require(M.shape[0] == want, f"{M.shape[0]} components, the symmetric space has dimension {want}")
    stol = 2e-3 if withQ or g in ("SU2_", "SU3", "SU4", "SO13") else 1e-6
    check_symmetric(res.array, group, stol)
    s = np.linalg.svd(M, compute_uv=False)
    require(s[-1] > 1e-4 * s[0], "the basis is not linearly independent")
    if not withQ and g != "SO13":
        close(M @ np.conj(M.T), np.eye(len(M)), "orthonormal", 5e-3)
    return M


def check(case, ctx):
    import lie_nn as lie

    n, names = case["n"], case["names"]
    gens = [(s, tuple(p)) for s, p in case["gens"]]
    group = closure(n, gens)
    if (-1, tuple(range(n))) in group:
        return
    orb = orbits(n, group)
    leaders = sorted(set(orb))
    rs = [case["r"][leaders.index(o) % len(case["r"])] for o in orb]
    g = G.group_of(rs[0])
    dims = tuple(G.dim_of(r) for r in rs)
    cap = TOTAL[case["tier"]][g]
    if not all(ok_su2real(r) for r in rs) or int(np.prod(dims)) > cap:
        return
    want = space_dim(group, dims)
    if want == 0:
        return  # see ASSUMPTIONS
    reps = {o: G.build(r) for o, r in zip(orb, rs)}
    # rhs = lhs with the letters permuted; the group generated is the same for both readings
    formula = "=".join(
        [names[:n]] + [("-" if s < 0 else "") + "".join(names[i] for i in p) for s, p in gens]
    )
    given = {}
    for i in range(n):
        if orb[i] == i or case["also"][i]:
            given[names[i]] = reps[orb[i]] if case["same"] else G.build(rs[i])
    withQ = any(r["t"] == "red" and r["Q"] is not None for r in rs)
    ctx.nontrivial(len(group) > 1 and max(dims) > 1)
    ctx.label(f"{n} indices, group of order {len(group)}" + (" with signs" if any(s < 0 for s, _ in group) else ""))
    ctx.label("Q" if withQ else "no Q")
    res = lie.reduced_tensor_product_basis(formula, **given)
    denses = [G.dense(r) for r in rs]
    M = finish(g, [reps[o] for o in orb], denses, res, group, withQ, n)
    # a full, sign-free symmetry is the symmetric product
    if len(set(rs_key(r) for r in rs)) == 1 and len(group) == math.factorial(n) and all(s == 1 for s, _ in group):
        sym = lie.reduced_symmetric_tensor_product_basis(reps[orb[0]], n)
        same_space(sym, res, M)


def rs_key(r):
    import json

    return json.dumps(r, sort_keys=True)


def same_space(a, b, M):
    require([(x.mul, x.rep) for x in a.rep.irreps] == [(x.mul, x.rep) for x in b.rep.irreps], "content")
    for x, y in zip(a.list, b.list):
        k = x.shape[-1] * x.shape[-2]
        u, v = x.reshape(-1, k), y.reshape(-1, k)
        close(u @ np.linalg.pinv(u), v @ np.linalg.pinv(v), "isotypic subspaces", 1e-3)


# generators of some groups of signed permutations, by number of indices
KNOWN = {
    2: [[(1, (1, 0))], [(-1, (1, 0))], []],
    3: [
        [(1, (1, 0, 2))], [(-1, (0, 2, 1))], [(1, (1, 2, 0))], [(1, (1, 0, 2)), (1, (0, 2, 1))],
        [(-1, (1, 0, 2)), (-1, (0, 2, 1))], [(1, (2, 1, 0))], [(-1, (2, 1, 0))],
    ],
    4: [
        [(1, (1, 0, 2, 3))], [(1, (1, 0, 2, 3)), (1, (0, 1, 3, 2))], [(-1, (1, 0, 2, 3)), (1, (0, 1, 3, 2))],
        [(1, (1, 2, 3, 0)), (1, (1, 0, 2, 3))], [(-1, (1, 0, 2, 3)), (-1, (0, 1, 3, 2)), (1, (2, 3, 0, 1))],
        [(1, (2, 3, 0, 1))], [(-1, (2, 3, 0, 1))], [(1, (1, 2, 3, 0))], [(-1, (1, 2, 3, 0))],
        [(-1, (1, 2, 3, 0)), (-1, (1, 0, 2, 3))], [(1, (1, 0, 3, 2))], [(1, (2, 1, 0, 3)), (-1, (0, 3, 2, 1))],
        [(1, (3, 1, 2, 0))], [(1, (1, 2, 0, 3))], [(1, (0, 2, 3, 1))],
    ],
}


@st.composite
def st_case(draw, tier):
    g = draw(st.sampled_from(TENSOR_GROUPS))
    cap = TOTAL[tier][g]
    n = draw(st.sampled_from([2, 3, 3, 4] if cap >= 16 else [2, 3]))
    if draw(st.integers(0, 3)):
        gens = draw(st.sampled_from(KNOWN[n]))
    else:
        gens = draw(st.lists(st.tuples(st.sampled_from([1, -1]), st.permutations(range(n)).map(tuple)), min_size=0, max_size=2))
    group = closure(n, gens)
    orb = orbits(n, group)
    m = max(1, int(cap ** (1 / n) + 1e-9))
    rs = []
    for _ in range(len(set(orb))):
        rs.append(draw(st_operand(g, min(m + draw(st.integers(0, 1)), 10), kinds=("perm", "givens", "rot", "diag", "shear") if n < 4 else ("perm", "givens", "rot"))))
    perm = draw(st.permutations(LETTERS))
    return dict(
        n=n, names="".join(perm[:n]), gens=[[s, list(p)] for s, p in gens], r=rs, tier=tier,
        also=[draw(st.booleans()) for _ in range(n)], same=draw(st.booleans()),
    )


@st.composite
def st_many(draw, tier):
    """Five to eleven indices; the symmetries move a few of them."""
    g = draw(st.sampled_from([g for g in TENSOR_GROUPS if g not in ("SU4", "SO13", "SU3", "SU3*Z2")]))
    n = draw(st.integers(5, 11))
    k = draw(st.sampled_from([2, 2, 3, 3, 4]))
    where = draw(st.permutations(range(n)))[:k]
    gens = []
    for s, p in draw(st.sampled_from(KNOWN[k])):
        q = list(range(n))
        for i in range(k):
            q[where[i]] = where[p[i]]
        gens.append([s, q])
    group = closure(n, [(s, tuple(p)) for s, p in gens])
    orb = orbits(n, group)
    left = min(TOTAL[tier][g], 96 if tier == "quick" else 256)
    leaders = sorted(set(orb))
    rs = {}
    for o in draw(st.permutations(leaders)):
        e = orb.count(o)
        top = max(1, int(left ** (1 / e) + 1e-9))
        m = min(top, draw(st.sampled_from([2, 3, 4] if e > 1 else [1, 1, 1, 2, 3])))
        rs[o] = draw(st_operand(g, m, kinds=("perm", "givens", "rot")))
        left = max(1, left // G.dim_of(rs[o]) ** e)
    perm = draw(st.permutations(LETTERS))
    return dict(
        n=n, names="".join(perm[:n]), gens=gens, r=[rs[o] for o in leaders], tier=tier,
        also=[draw(st.booleans()) for _ in range(n)], same=draw(st.booleans()),
    )


def sweep_large(tier):
    """five and six indices, groups of up to 720 elements, operands of dimension two and three"""
    cyc = lambda n, *cs: [next((c[(c.index(i) + 1) % len(c)] for c in cs if i in c), i) for i in range(n)]
    g5 = [
        [(1, cyc(5, [0, 1])), (1, cyc(5, range(5)))],  # S5
        [(1, cyc(5, [0, 1, 2])), (1, cyc(5, range(5)))],  # A5
        [(1, cyc(5, range(5))), (1, cyc(5, [1, 4], [2, 3]))],  # D5
        [(1, cyc(5, range(5))), (-1, cyc(5, [1, 4], [2, 3]))],
        [(1, cyc(5, [1, 2, 4, 3])), (1, cyc(5, range(5)))],  # of order 20
        [(-1, cyc(5, [1, 2, 4, 3])), (1, cyc(5, range(5)))],
        [(1, cyc(5, [0, 3])), (1, cyc(5, [0, 3, 4])), (-1, cyc(5, [1, 2]))],
    ]
    g6 = [
        [(1, cyc(6, [0, 1])), (1, cyc(6, range(6)))],  # S6
        [(1, cyc(6, [0, 1, 2])), (1, cyc(6, range(1, 6)))],  # A6
        [(-1, cyc(6, [0, 1])), (1, cyc(6, [0, 2], [1, 3])), (1, cyc(6, [0, 2, 4], [1, 3, 5]))],  # pairs
        [(1, cyc(6, [0, 3])), (-1, cyc(6, [0, 1], [3, 4])), (-1, cyc(6, [0, 2], [3, 5]))],
        [(1, cyc(6, [0, 2])), (1, cyc(6, [0, 2, 4])), (1, cyc(6, [0, 1], [2, 3], [4, 5]))],  # of order 72
        [(1, cyc(6, [0, 2])), (1, cyc(6, [0, 2, 4])), (-1, cyc(6, [0, 1], [2, 3], [4, 5]))],
        [(1, cyc(6, range(5))), (1, cyc(6, [0, 5], [1, 4]))],  # PSL(2, 5)
        [(-1, cyc(6, range(6)))],
        [(1, cyc(6, [0, 5, 2])), (1, cyc(6, [1, 3])), (-1, cyc(6, [0, 5]))],
    ]
    one = lambda g, *ls: dict(t="red", r=[[m, dict(t="irrep", g=g, l=l)] for m, l in ls], Q=None)
    two = [one("SU2", (1, [1])), one("Z2", (1, [1]), (1, [-1])), one("Z2", (2, [-1])), one("SL2C", (1, [0, 1]))]
    out = []
    for n, gs in ((5, g5), (6, g6)):
        for i, gens in enumerate(gs):
            for j, r in enumerate(two if tier != "quick" else [two[i % 4], two[(i + 1) % 4]]):
                out.append(dict(
                    n=n, names="abcijkl"[i % 2 : i % 2 + n] if i % 3 else "ZXYkji"[:n], gens=[[s, list(p)] for s, p in gens],
                    r=[r] if j != 2 else [r, two[2]], tier=tier, also=[k % 2 == i % 2 for k in range(n)], same=bool(i % 2),
                ))
    three = [one("SO3", (1, [1])), one("O3", (1, [1, -1])), one("Z2", (2, [-1]), (1, [1]))]
    out += [
        dict(n=5, names="ijklm", gens=[[s, list(p)] for s, p in gens], r=[three[i % 3]], tier=tier, also=[True] * 5, same=True)
        for i, gens in enumerate(g5)
    ]
    return out


def check_sym(case, ctx):
    import lie_nn as lie

    r, n = case["r"], case["n"]
    g = G.group_of(r)
    d = G.dim_of(r)
    if not ok_su2real(r) or d**n > TOTAL[case["tier"]][g] * 2:
        return
    ctx.nontrivial(d > 1 and n > 1)
    ctx.label(f"order {n}")
    rep, dense = G.build(r), G.dense(r)
    res = lie.reduced_symmetric_tensor_product_basis(rep, n)
    group = {(1, p) for p in itertools.permutations(range(n))}
    withQ = r["t"] == "red" and r["Q"] is not None
    M = finish(g, [rep] * n, [dense] * n, res, group, withQ, n)
    require(M.shape[0] == math.comb(d + n - 1, n), "dimension of the symmetric power")


@st.composite
def st_sym(draw, tier):
    g = draw(st.sampled_from(TENSOR_GROUPS))
    cap = TOTAL[tier][g] * 2
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6]))
    m = max(1, int(cap ** (1 / n) + 1e-9))
    r = draw(st_operand(g, min(m, 10), kinds=("perm", "givens", "rot")))
    return dict(r=r, n=n, tier=tier)


BAD = ["ij=ik", "ij=ijk", "ijk=ij", "ij=ii", "ii=ii", "ijk=jik=ikl", "ij=jj", "i=j", "ij=-jk", "ijk=jii"]


def check_bad(case, ctx):
    """Requests that make no sense are refused."""
    import lie_nn as lie

    g = case["g"]
    r = G.mk(g, case["l"])
    kind = case["kind"]
    ctx.nontrivial()
    ctx.label(kind)
    if kind == "formula":
        f = case["f"]
        kw = {c: r for c in f if c.isalpha()}
        require(raises(lambda: lie.reduced_tensor_product_basis(f, **kw)), f"formula {f!r} accepted")
    elif kind == "missing":
        require(raises(lambda: lie.reduced_tensor_product_basis("ijk=jik", i=r)), "index k has no irreps")
    elif kind == "extra":
        require(raises(lambda: lie.reduced_tensor_product_basis("ij=ji", i=r, k=r)), "k is not in the formula")
    elif kind == "long":
        require(raises(lambda: lie.reduced_tensor_product_basis("ij=ji", i=r, ij=r)), "ij is no index")
    elif kind == "negative":
        require(raises(lambda: lie.reduced_tensor_product_basis("-ij=ji", i=r)), "a leading sign was accepted")
    elif kind == "different":
        labs = [l for l in G.labels(g, 5) if tuple(l) != tuple(case["l"])]
        q = G.mk(g, labs[case["s"] % len(labs)])
        require(raises(lambda: lie.reduced_tensor_product_basis("ij=ji", i=r, j=q)), "i and j differ")
        require(raises(lambda: lie.reduced_tensor_product_basis("ijk=jki", i=r, k=q)), "i and k differ")
        red = lie.ReducedRep.from_irreps([(1, r), (1, q)])
        require(raises(lambda: lie.reduced_tensor_product_basis("ij=-ji", i=red, j=q)), "i and j differ")
        if red.dim > 1:
            Q = G.build_q(dict(k="rot", s=case["s"]), red.dim)
            red2 = lie.ReducedRep.from_irreps([(1, r), (1, q)], Q)
            require(raises(lambda: lie.reduced_tensor_product_basis("ij=ji", i=red, j=red2)), "bases differ")
    elif kind == "close bases":
        # bases that differ in a single entry, at any scale
        base = lie.ReducedRep.from_irreps([(1 + case["s"] % 2, r)])
        d, rng = base.dim, np.random.RandomState(case["s"])
        if r.dim == 1:
            return  # all the bases give the same representation
        Q = G.build_q(dict(k=case["q"], s=case["s"]), d) * 10.0 ** case["e"]
        Q2 = np.array(Q, dtype=np.result_type(Q, float))
        Q2[rng.randint(d), rng.randint(d)] += case["eps"] * np.max(np.abs(Q))
        red1, red2 = lie.change_basis(base, Q), lie.change_basis(base, Q2)
        same = lie.change_basis(base, Q * (1 + 1e-14))
        require(raises(lambda: lie.reduced_tensor_product_basis("ij=ji", i=red1, j=red2)), f"bases that differ by {case['eps']:g}")
        require(raises(lambda: lie.reduced_tensor_product_basis("ijk=kji", i=red1, j=red1, k=red2)), f"bases that differ by {case['eps']:g}")
        if Q.size <= 9 and case["q"] == "rot":
            lie.reduced_tensor_product_basis("ij=ji", i=red1, j=same)


@st.composite
def st_bad(draw, tier):
    g = draw(st.sampled_from(["SO3", "O3", "SU2", "SL2C", "Z2", "SU3"]))
    return dict(
        g=g, l=draw(G.st_label(g, 3)), s=draw(st.integers(0, 50)), f=draw(st.sampled_from(BAD)),
        kind=draw(st.sampled_from(["formula", "missing", "extra", "long", "negative", "different", "close bases", "close bases"])),
        q=draw(st.sampled_from(["rot", "dense", "perm", "signs", "diag", "cdense"])), e=draw(st.integers(-4, 4)),
        eps=draw(st.sampled_from([0.3, 0.05, 1e-2, 1e-3, -1e-3])),
    )


def components(tier):
    return [
        Component("formulas", check, "a non-trivial group of index symmetries, dimension > 1", strategy=st_case, n=dict(quick=1650, thorough=8000), shards=32),
        Component("many indices", check, "a non-trivial group of index symmetries, dimension > 1", strategy=st_many, n=dict(quick=480, thorough=3000), shards=32),
        Component("large groups", check, "a non-trivial group of index symmetries, dimension > 1", sweep=sweep_large),
        Component("symmetric", check_sym, "order at least 2, dimension > 1", strategy=st_sym, n=dict(quick=480, thorough=3000), shards=24),
        Component("refusals", check_bad, "every case", strategy=st_bad, n=dict(quick=400, thorough=1200), shards=4),
    ]
