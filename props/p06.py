"""Enumeration, ordering, equality and hashing of the irreps of a group."""
from .common import *
import functools
import itertools

ASSUMPTIONS = ["the first few hundred irreps of every group"]
N = {"quick": 300, "thorough": 800}


def trivial_label(g):
    return G.labels(g, 1)[0] if g not in ("O3", "Z2") else ((0, 1) if g == "O3" else (1,))


def rank_key(g, l):
    """The documented order."""
    if g == "O3":  # scalar, pseudo-scalar, vector, pseudo-vector, ...
        return (l[0], 0 if l[1] == (-1) ** l[0] else 1)
    if g == "Z2":
        return -l[0]
    if g in ("SL2C", "SO13"):
        return (l[0] + l[1], l[0])
    return tuple(l)


def cls(g):
    import lie_nn as lie

    return getattr(lie.irreps, g)


def check_iterator(case, ctx):
    g, n = case["g"], case["n"]
    it = cls(g).iterator()
    irreps = list(itertools.islice(it, n))
    labs = [G.label_of(g, r) for r in irreps]
    ctx.nontrivial(n > 1)
    require(len(irreps) == (min(2, n) if g == "Z2" else n), f"the iterator yields {len(irreps)} irreps")
    if not irreps:
        return
    require(labs[0] == trivial_label(g), f"the first irrep is {irreps[0]}")
    require(len(set(labs)) == n or g == "Z2" and len(set(labs)) == len(labs), "an irrep is listed twice")
    for a, b in zip(irreps, irreps[1:]):
        require(a < b and not b < a and a != b, f"{a} before {b} is not the order of <")
    keys = [rank_key(g, l) for l in labs]
    require(keys == sorted(keys), "not sorted")
    for r in irreps:
        require(type(r) is cls(g), f"{type(r)} instead of {g}")
    # a second iterator is independent of the first
    require([G.label_of(g, r) for r in itertools.islice(cls(g).iterator(), n)] == labs, "second iterator")
    if g != "Z2":
        nxt = G.label_of(g, next(it))
        more = [G.label_of(g, r) for r in itertools.islice(cls(g).iterator(), n + 1)]
        require(nxt == more[-1], "resumed iterator")


def position(g, l):
    """How many irreps come before l in the documented order (all of them are enumerated)."""
    if g in ("SO3", "SU2", "SU2Real"):
        return l[0]
    if g == "O3":
        return 2 * l[0] + (0 if l[1] == (-1) ** l[0] else 1)
    if g == "Z2":
        return 0 if l[0] == 1 else 1
    if g == "SL2C":
        s = l[0] + l[1]
        return s * (s + 1) // 2 + l[0]
    if g == "SO13":
        s = l[0] + l[1]
        return sum(t + 1 for t in range(0, s, 2)) + l[0]
    if g == "SU2_":
        return l[0]
    if g == "SU3":
        return l[0] * (l[0] + 1) // 2 + l[1]
    if g == "SU4":
        a, b, c = l[0], l[1], l[2]
        return a * (a + 1) * (a + 2) // 6 + b * (b + 1) // 2 + c
    raise KeyError(g)


def check_complete(case, ctx):
    """Every irrep is reached, at its place."""
    g, l = case["g"], tuple(case["l"])
    p = position(g, l)
    ctx.nontrivial(p > 0)
    r = next(itertools.islice(cls(g).iterator(), p, None), None)
    require(r is not None and G.label_of(g, r) == l, f"irrep number {p} of {g} is {r}, expected {l}")
    require(r == G.mk(g, l) and hash(r) == hash(G.mk(g, l)), "equality with a constructed irrep")


def check_order(case, ctx):
    g = case["g"]
    labs = [tuple(x) for x in case["ls"]]
    rs = [G.mk(g, l) for l in labs]
    qs = [G.mk(g, l) for l in labs]
    ctx.nontrivial(len(set(labs)) > 1)
    for i, a in enumerate(labs):
        for j, b in enumerate(labs):
            require((rs[i] == qs[j]) is (a == b), f"{rs[i]} == {qs[j]}")
            require((rs[i] != qs[j]) is (a != b), f"{rs[i]} != {qs[j]}")
            lt = rs[i] < qs[j]
            require(bool(lt) == (rank_key(g, a) < rank_key(g, b)), f"{rs[i]} < {qs[j]} is {lt}")
            if a == b:
                require(hash(rs[i]) == hash(qs[j]), "hash of equal irreps")
    got = [G.label_of(g, r) for r in sorted(rs)]
    require(got == sorted(labs, key=lambda l: rank_key(g, l)), f"sorted: {got}")
    require(len(set(rs)) == len(set(labs)), "set of irreps")
    table = {r: i for i, r in enumerate(rs)}
    last = {l: i for i, l in enumerate(labs)}
    for l, q in zip(labs, qs):
        require(table[q] == last[l], "dict lookup with an equal irrep")
    require((max(rs) == G.mk(g, max(labs, key=lambda l: rank_key(g, l)))), "max")


def check_trivial(case, ctx):
    g, l = case["g"], tuple(case["l"])
    r = G.mk(g, l)
    t = r.create_trivial()
    tl = trivial_label(g)
    ctx.nontrivial(l != tl)
    require(t == G.mk(g, tl) and G.label_of(g, t) == tl, f"create_trivial of {r} is {t}")
    require(t.is_trivial() is True or t.is_trivial() == True, "the trivial irrep is not trivial")  # noqa: E712
    require(bool(r.is_trivial()) == (l == tl), f"is_trivial of {r}")
    require(cls(g).create_trivial() == t, "create_trivial of the class")
    if hasattr(r, "is_scalar"):
        want = l[0] == 0 if g == "O3" else l == tl
        require(bool(r.is_scalar()) == want, f"is_scalar of {r}")
    # irreps are values: immutable
    f = next(iter(vars(r)))
    ok = raises(lambda: setattr(r, f, getattr(r, f)))
    require(ok and G.label_of(g, r) == l, "an irrep can be modified")


def check_families(case, ctx):
    """Irreps of different families are never equal to each other."""
    g1, g2 = case["g1"], case["g2"]
    l1, l2 = tuple(case["l1"]), tuple(case["l2"])
    a, b = G.mk(g1, l1), G.mk(g2, l2)
    ctx.nontrivial(g1 != g2)
    require(not (a == b) if g1 != g2 else (a == b) == (l1 == l2), f"{a} == {b}")


FAMILIES = ["SUN", "SU3", "SU2_", "SU4", "SON", "SPN", "SO3", "Z2", "O3", "SL2C", "SO13", "SU2"]


def any_family(f, l):
    if f in ("SUN", "SON", "SPN"):
        import importlib

        return getattr(importlib.import_module(f"lie_nn._src.irreps.{f.lower()}"), f)(tuple(l))
    return G.mk(f, l)


def check_equal(case, ctx):
    """Equality is decidable between any two irreps, symmetric, and only within a group."""
    x, y = case["x"], case["y"]
    a, b = any_family(*x), any_family(*y)
    same = list(x[1]) == list(y[1]) and (x[0] == y[0] or x[0] in SUNS and y[0] in SUNS)
    ctx.nontrivial(x[0] != y[0])
    ctx.label("same" if same else "different")
    for p, q in ((a, b), (b, a)):
        if x[0] == y[0] or not same:
            require((p == q) is same and (p != q) is (not same), f"{p} == {q} is {p == q}")
    if a == b:
        require(hash(a) == hash(b), "hash of equal irreps")
    require((a in [b]) is (a == b), "membership")


SUNS = ("SUN", "SU2_", "SU3", "SU4")


@st.composite
def st_equal(draw, tier):
    def lab(f):
        n = {"SUN": None, "SON": None, "SPN": None, "SU2_": 2, "SU3": 3, "SU4": 4}.get(f, 0)
        if n == 0:
            return draw(G.st_label(f, 6))
        if n is None:
            n = draw(st.integers(2, 4))
        l = [draw(st.integers(0, 2)) for _ in range(n - 1)]
        return sorted(l, reverse=True) + [0] if f not in ("SON", "SPN") or draw(st.booleans()) else l

    f1, f2 = draw(st.sampled_from(FAMILIES)), draw(st.sampled_from(FAMILIES))
    x = [f1, lab(f1)]
    if f2 in ("SUN", "SON", "SPN") and f1 in ("SUN", "SON", "SPN", "SU3", "SU4", "SU2_") and draw(st.booleans()):
        if f2 != "SUN" or x[1][-1] == 0 and x[1] == sorted(x[1], reverse=True):
            return dict(x=x, y=[f2, x[1]])
    return dict(x=x, y=[f2, lab(f2)])


def build_product(p):
    import lie_nn as lie

    if isinstance(p[0], str):
        return G.mk(p[0], p[1])
    return lie.group_product(*[build_product(x) for x in p])


def check_products(case, ctx):
    """Products of irreps are ordered, hashable values too."""
    ps = [build_product(p) for p in case["ps"]]
    qs = [build_product(p) for p in case["ps"]]
    keys = [str(p) for p in case["ps"]]
    ctx.nontrivial(len(set(keys)) > 1)
    lt = {}
    for i, a in enumerate(ps):
        for j, b in enumerate(qs):
            require((a == b) is (keys[i] == keys[j]), f"{a} == {b}")
            lt[i, j] = bool(a < b)
            if keys[i] == keys[j]:
                require(hash(a) == hash(b), "hash of equal products")
    n = len(ps)
    for i in range(n):
        for j in range(n):
            if keys[i] == keys[j]:
                require(not lt[i, j], f"{ps[i]} < {qs[j]}")
            else:
                require(lt[i, j] != lt[j, i], f"{ps[i]} and {qs[j]} are not ordered")
            for k in range(n):
                require(not (lt[i, j] and lt[j, k]) or lt[i, k], f"{ps[i]}, {ps[j]}, {ps[k]}: not transitive")
    a, b = (sorted(x, key=None) for x in (ps, ps[::-1]))
    require(a == b, "the sorted order depends on the initial order")
    require(len(set(ps + qs)) == len(set(keys)), "set of products")
    d = ps[0].dim
    require(d == np.prod([O.label_dim(*x) for x in flat(case["ps"][0])]), f"dimension {d}")


def flat(p):
    return [tuple(p)] if isinstance(p[0], str) else [y for x in p for y in flat(x)]


@st.composite
def st_products(draw, tier):
    n = draw(st.integers(2, 3))
    gs = [draw(st.sampled_from(G.GROUPS)) for _ in range(n)]
    one = lambda: [[g, draw(G.st_label(g, 6))] for g in gs]  # noqa: E731
    nested = n == 3 and draw(st.booleans())
    ps = []
    for _ in range(draw(st.integers(2, 5))):
        p = one()
        ps.append([p[0], p[1:]] if nested else p)
    return dict(ps=ps)


def unrank(g, p):
    """The label at place p of the documented order."""
    if g == "Z2":
        return (1, -1)[p : p + 1]
    l = 0
    if g in ("SO3", "SU2", "SU2Real"):
        return (p,)
    if g == "O3":
        return (p // 2, (-1) ** (p // 2) * (1 if p % 2 == 0 else -1))
    if g == "SU2_":
        return (p, 0)
    if g in ("SL2C", "SO13"):
        s = 0
        while p > s:
            p -= s + 1
            s += 1 if g == "SL2C" else 2
        return (p, s - p)
    if g == "SU3":
        while p > l:
            l += 1
            p -= l
        return (l, p, 0)
    if g == "SU4":
        while p >= (l + 1) * (l + 2) // 2:
            p -= (l + 1) * (l + 2) // 2
            l += 1
        m = 0
        while p > m:
            m += 1
            p -= m
        return (l, m, p, 0)
    raise KeyError(g)


def check_interleaved(case, ctx):
    """Several enumerations at once, other operations in between."""
    gs = case["gs"]
    its = [cls(g).iterator() for g in gs]
    pos = [0] * len(gs)
    seen = {}
    ctx.nontrivial(len(set(case["steps"])) > 1 and len(gs) > len(set(gs)))
    for k in case["steps"]:
        i = k % len(gs)
        g = gs[i]
        r = next(its[i], None)
        if g == "Z2" and pos[i] >= 2:
            require(r is None, f"Z2 lists {r} after its two irreps")
            continue
        want = unrank(g, pos[i])
        require(r is not None and G.label_of(g, r) == tuple(want), f"irrep number {pos[i]} of {g} is {r} when {gs} are enumerated alternately")
        pos[i] += 1
        if case["use"]:
            r.create_trivial(), r.is_trivial(), r.dim, hash(r)
            seen.setdefault((g, tuple(want)), []).append(r)
    for (g, l), rs in seen.items():
        for r in rs:
            require(r == rs[0] and hash(r) == hash(rs[0]) and G.label_of(g, r) == l, f"{r} changed")


@st.composite
def st_inter(draw, tier):
    gs = draw(st.lists(st.sampled_from(G.GROUPS), min_size=1, max_size=3))
    gs = gs + draw(st.lists(st.sampled_from(gs), min_size=0, max_size=2))
    steps = draw(st.lists(st.integers(0, len(gs) - 1), min_size=1, max_size=60))
    return dict(gs=gs, steps=steps, use=draw(st.booleans()))


def check_copies(case, ctx):
    """A copied or pickled irrep, product or representation is the same thing."""
    import copy
    import pickle
    import lie_nn as lie

    p = build_product(case["p"])
    ctx.nontrivial(not isinstance(case["p"][0], str) or any(case["p"][1]))
    X, H = np.array(p.continuous_generators()), np.array(p.discrete_generators())
    A = None if "SU4" in str(case["p"]) else np.array(p.algebra())  # that of SU4 takes a second
    things = [p, lie.MulIrrep(case["m"], p), lie.ReducedRep.from_irreps([(case["m"], p), (1, p)])]
    for t in things:
        for how, c in (("copy", copy.copy(t)), ("deepcopy", copy.deepcopy(t)), ("pickle", pickle.loads(pickle.dumps(t)))):
            require(type(c) is type(t) and c.dim == t.dim, f"{how} of {t}")
            if t is not things[2]:
                require(c == t and t == c, f"{how} of {t} is not equal to it")
            if t is p:
                require(hash(c) == hash(t) and len({c, t}) == 1, f"hash of the {how} of {t}")
            for f in ("continuous_generators", "discrete_generators"):
                require(np.array_equal(getattr(c, f)(), getattr(t, f)()), f"{how} of {t}: {f}")
            if how == "pickle" and A is not None:
                require(np.array_equal(c.algebra(), A), f"{how} of {t}: algebra")
    require(np.array_equal(p.continuous_generators(), X) and np.array_equal(p.discrete_generators(), H), "the original changed")


@st.composite
def st_copies(draw, tier):
    k = draw(st.integers(0, 3))
    gs = [g for g in G.GROUPS if k < 2 or g not in ("SU4", "SU3")]  # products with those are slow
    one = lambda: [g := draw(st.sampled_from(gs)), draw(G.st_label(g, 6))]  # noqa: E731
    p = one() if k < 2 else [one(), one()]
    return dict(p=p, m=draw(st.integers(0, 3)))


@st.composite
def st_order(draw, tier):
    g = draw(st.sampled_from(G.GROUPS))
    m = dict(SU4=64, SU3=60, SO13=60, SL2C=60).get(g, 20)
    return dict(g=g, ls=draw(st.lists(G.st_label(g, m), min_size=1, max_size=7)))


@st.composite
def st_fam(draw, tier):
    sun = ["SU2_", "SU3", "SU4"]
    g1, g2 = draw(st.sampled_from(sun + G.GROUPS)), draw(st.sampled_from(sun + G.GROUPS))
    return dict(g1=g1, g2=g2, l1=draw(G.st_label(g1, 12)), l2=draw(G.st_label(g2, 12)))


@st.composite
def st_complete(draw, tier):
    g = draw(st.sampled_from(G.GROUPS))
    l = draw(G.st_label(g, dict(SU4=200, SU3=200, SO13=200, SL2C=200).get(g, 40)))
    return dict(g=g, l=l)


def components(tier):
    its = [dict(g=g, n=n) for g in G.GROUPS for n in (1, 2, 3, 17, N[tier])]
    triv = [dict(g=g, l=list(l)) for g in G.GROUPS for l in G.labels(g, 15 if tier == "quick" else 40)]
    return [
        Component("iterator", check_iterator, "prefixes longer than one", sweep=lambda t: its, shards=4),
        Component("trivial", check_trivial, "non-trivial irreps", sweep=lambda t: triv),
        Component("complete", check_complete, "irreps after the first", strategy=st_complete, n=dict(quick=1200, thorough=3000)),
        Component("order", check_order, "lists with at least two different irreps", strategy=st_order, n=dict(quick=2400, thorough=10000)),
        Component("equal", check_equal, "irreps of different families", strategy=st_equal, n=dict(quick=1600, thorough=5000), shards=4),
        Component("products", check_products, "lists with at least two different products", strategy=st_products, n=dict(quick=1200, thorough=4000), shards=4),
        Component("interleaved", check_interleaved, "two enumerations of one group alternate", strategy=st_inter, n=dict(quick=1000, thorough=4000), shards=4),
        Component("copies", check_copies, "non-trivial irreps", strategy=st_copies, n=dict(quick=300, thorough=2000), shards=4),
        Component("families", check_families, "pairs from different families", strategy=st_fam, n=dict(quick=800, thorough=2000), shards=2),
    ]
