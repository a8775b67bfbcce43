"""The permutations behind index symmetries form groups."""
from .common import *
import itertools
import math

ASSUMPTIONS = ["permutations of at most 30 elements; subgroups of at most 120 elements"]


def perm_module():
    try:
        import lie_nn._src.discrete_groups.perm as perm
    except ImportError:
        raise Skip
    return perm


def comp(p, q):
    return tuple(p[i] for i in q)


def inv(p):
    out = [0] * len(p)
    for i, x in enumerate(p):
        out[x] = i
    return tuple(out)


def check_ops(case, ctx):
    P = perm_module()
    p, q, r = (tuple(case[k]) for k in "pqr")
    n = len(p)
    e = tuple(range(n))
    ctx.nontrivial(n > 2 and p != e and q != e)
    require(P.identity(n) == e, "identity")
    require(P.compose(p, q) == comp(p, q), "compose: (p q)(i) = p(q(i))")
    require(P.compose(P.compose(p, q), r) == P.compose(p, P.compose(q, r)), "associative")
    require(P.inverse(p) == inv(p), "inverse")
    require(P.compose(p, P.inverse(p)) == e == P.compose(P.inverse(p), p), "inverse")
    require(P.sign(p) == O.perm_parity(p), "sign")
    require(P.sign(P.compose(p, q)) == P.sign(p) * P.sign(q), "sign is multiplicative")
    require(bool(P.is_perm(p)), "is_perm")
    if n:
        bad = list(p)
        bad[0] = n
        require(not P.is_perm(tuple(bad)), "is_perm accepts an element out of range")
    if n > 1:
        require(not P.is_perm((p[0],) + p[:-1]) or p[0] == p[:-1], "is_perm accepts a repetition")
    # cycles: disjoint, start with their smallest element, reproduce p
    cyc = P.to_cycles(p)
    q2 = list(e)
    seen = []
    for c in cyc:
        require(len(c) >= 2 and c[0] == min(c), f"cycle {c}")
        seen += list(c)
        for a, b in zip(c, c[1:] + c[:1]):
            q2[a] = b
    require(len(seen) == len(set(seen)), "cycles are disjoint")
    require(tuple(q2) == p, "cycles do not give the permutation")
    # numbering
    k = P.to_int(p)
    require(0 <= k < math.factorial(n) and P.from_int(k, n) == p, "to_int / from_int")
    x = P.rand(n)
    require(len(x) == n and bool(P.is_perm(x)), "rand")


@st.composite
def st_ops(draw, tier):
    n = draw(st.one_of(st.integers(1, 7), st.integers(8, 30)) if draw(st.integers(0, 3)) == 0 else st.integers(1, 7))
    s = st.permutations(range(n)).map(list)
    return dict(p=draw(s), q=draw(s), r=draw(s))


def check_group(case, ctx):
    P = perm_module()
    n = case["n"]
    gens = [tuple(g) for g in case["gens"]]
    want = {tuple(range(n))}
    todo = list(want)
    while todo:
        p = todo.pop()
        for g in gens:
            x = comp(p, g)
            if x not in want:
                want.add(x)
                todo.append(x)
        if len(want) > case.get("cap", 120):
            return
    ctx.nontrivial(len(want) > 2)
    ctx.label(f"order {len(want)}")
    got = P.germinate(set(gens))
    require(set(got) == want, f"{len(got)} elements generated, expected {len(want)}")
    require(bool(P.is_group(set(got))), "is_group refuses a group")
    if len(want) > 1:
        missing = sorted(want)[case["s"] % len(want)]
        if len(want) != 2 or missing == tuple(range(n)):
            require(not P.is_group(want - {missing}), "is_group accepts a group with an element missing")
    require(not P.is_group(set()), "is_group accepts the empty set")
    require(math.factorial(n) % len(got) == 0, "Lagrange")


@st.composite
def st_group(draw, tier):
    if draw(st.integers(0, 3)):
        n = draw(st.integers(1, 6))
        return dict(n=n, gens=draw(st.lists(st.permutations(range(n)).map(list), min_size=1, max_size=3)), s=draw(st.integers(0, 200)))
    # many points, few of them moved together: cyclic groups and products of small groups
    n = draw(st.integers(7, 16))
    gens = []
    for _ in range(draw(st.integers(1, 3))):
        p = list(range(n))
        pts = list(draw(st.permutations(range(n))))
        for k in draw(st.lists(st.sampled_from([2, 2, 3, 4, 5]), min_size=1, max_size=3)):
            c, pts = pts[:k], pts[k:]
            for x, y in zip(c, c[1:] + c[:1]):
                p[x] = y
        gens.append(p)
    return dict(n=n, gens=gens, s=draw(st.integers(0, 200)))


def check_numbering(case, ctx):
    P = perm_module()
    n = case["n"]
    ctx.nontrivial(n > 1)
    N = math.factorial(n)
    ps = [P.from_int(i, n) for i in range(N)]
    require(sorted(ps) == list(itertools.permutations(range(n))), "from_int is a bijection")
    require([P.to_int(p) for p in ps] == list(range(N)), "to_int inverts from_int")
    require(P.group(n) == set(itertools.permutations(range(n))), "group(n)")
    if n <= 4:
        require(bool(P.is_group(P.group(n))), "the symmetric group")
    require(sum(P.sign(p) for p in ps) == (0 if n > 1 else 1), "half of the permutations are even")


def sweep_groups(tier):
    """groups of more than 120 elements"""
    cyc = lambda n, *cs: [next((c[(c.index(i) + 1) % len(c)] for c in cs if i in c), i) for i in range(n)]
    out = [
        (7, [cyc(7, [0, 1, 2]), cyc(7, [0, 1]), cyc(7, [3, 4, 5, 6]), cyc(7, [3, 4])]),  # S3 x S4
        (7, [cyc(7, [0, 1, 2, 3, 4, 5, 6]), cyc(7, [1, 2], [3, 6])]),  # PSL(2, 7)
        (6, [cyc(6, [0, 1, 2]), cyc(6, [0, 1, 2, 3, 4], [5])]),
        (6, [cyc(6, [0, 1, 2]), cyc(6, [1, 2, 3, 4, 5])]),  # A6
        (8, [cyc(8, [0, 1]), cyc(8, [2, 3]), cyc(8, [4, 5]), cyc(8, [6, 7]), cyc(8, [0, 2, 4, 6], [1, 3, 5, 7])]),
        (15, [cyc(15, [0, 1, 2], [3, 4, 5, 6, 7]), cyc(15, [8, 9], [10, 11, 12, 13]), cyc(15, [0, 1])]),
        (12, [cyc(12, [0, 1, 2, 3]), cyc(12, [4, 5, 6, 7, 8]), cyc(12, [9, 10, 11]), cyc(12, [0, 2])]),
        (6, [cyc(6, [0, 1]), cyc(6, [0, 1, 2, 3, 4, 5])]),  # S6
    ]
    if tier != "quick":
        out += [(9, [cyc(9, [0, 1, 2]), cyc(9, [0, 1]), cyc(9, [0, 3, 6], [1, 4, 7], [2, 5, 8])]), (8, [cyc(8, [0, 1, 2, 3, 4, 5, 6]), cyc(8, [1, 2], [3, 6], [0, 7], [4, 5])])]
    return [dict(n=n, gens=g, s=3 * i, cap=1400) for i, (n, g) in enumerate(out)]


def components(tier):
    return [
        Component("operations", check_ops, "n > 2, both permutations different from the identity", strategy=st_ops, n=dict(quick=18000, thorough=30000), shards=8),
        Component("subgroups", check_group, "order > 2", strategy=st_group, n=dict(quick=3000, thorough=4000), shards=8),
        Component("large groups", check_group, "order > 2", sweep=sweep_groups),
        Component("numbering", check_numbering, "n > 1", sweep=lambda t: [dict(n=n) for n in range(1, 7 if t == "quick" else 8)]),
    ]
