"""Text form of irreps, multiples and sums."""
from .common import *

ASSUMPTIONS = ["the text forms of the documentation: 2, 1o, (2,1), (2,1,0), e; sums a + 3xb"]


def cls(g):
    import lie_nn as lie

    return getattr(lie.irreps, g)


WS = ["", " ", "  ", "\t", "\n", " \t "]


def check_irrep(case, ctx):
    g, l = case["g"], tuple(case["l"])
    text = WS[case["w"][0]] + G.text_of(g, l) + WS[case["w"][1]]
    ctx.nontrivial(sum(abs(x) for x in l) > 1)
    ctx.label(g)
    r = cls(g).from_string(text)
    require(type(r) is cls(g) and G.label_of(g, r) == l, f"{text!r} parsed as {r}")
    require(r == G.mk(g, l) and hash(r) == hash(G.mk(g, l)), "equality")
    require(r.dim == O.label_dim(g, l), "dim")


def check_sum(case, ctx):
    import lie_nn as lie

    g = case["g"]
    parts = []
    want = []
    for m, l, w in case["terms"]:
        l = tuple(l)
        t = G.text_of(g, l)
        if m is None:
            s = t
        else:
            s = f"{m}{WS[w[2]]}x{WS[w[3]]}{t}"
        parts.append(WS[w[0]] + s + WS[w[1]])
        want.append((1 if m is None else m, l))
    text = "+".join(parts)
    ctx.nontrivial(len(want) > 1 or want[0][0] > 1)
    ctx.label(f"{len(want)} terms")
    rep = lie.ReducedRep.from_string(text, cls(g))
    got = [(x.mul, G.label_of(g, x.rep)) for x in rep.irreps]
    require(got == want, f"{text!r} parsed as {got}")
    for x in rep.irreps:
        require(type(x.rep) is cls(g), f"{type(x.rep)}")
        require(isinstance(x.mul, int), "multiplicity is an integer")
    d = sum(m * O.label_dim(g, l) for m, l in want)
    require(rep.dim == d, f"dim {rep.dim}, expected {d}")
    require(rep.Q is None, "Q")
    if len(want) == 1:
        mi = lie.MulIrrep.from_string(parts[0], cls(g))
        require((mi.mul, G.label_of(g, mi.rep)) == want[0], f"MulIrrep of {parts[0]!r}: {mi}")
        require(mi.dim == d, "dim")
    if d <= 12 and d > 0:
        Q = G.build_q(case["Q"], d)
        rq = lie.ReducedRep.from_string(text, cls(g), Q)
        close(rq.Q, Q, "Q of from_string")
        desc = dict(t="red", r=[[m, dict(t="irrep", g=g, l=list(l))] for m, l in want], Q=case["Q"])
        O.same_dense(rq, G.dense(desc), f"{text!r} in another basis", 1e-8)


@st.composite
def st_text(draw, tier):
    g = draw(st.sampled_from(TEXT_GROUPS))
    m = dict(SU4=300, SU3=300, SO13=400, SL2C=400, SU2_=200).get(g, 200)
    w = st.integers(0, 5)
    return dict(g=g, l=draw(G.st_label(g, m)), w=[draw(w), draw(w)])


@st.composite
def st_sum(draw, tier):
    g = draw(st.sampled_from(TEXT_GROUPS))
    m = dict(SU4=20, SU3=15, SO13=9, SL2C=9).get(g, 9)
    mul = st.one_of(st.none(), st.integers(0, 3), st.integers(0, 130))
    w = st.integers(0, 5)
    terms = draw(
        st.lists(st.tuples(mul, G.st_label(g, m), st.tuples(w, w, w, w)), min_size=1, max_size=5)
    )
    return dict(g=g, terms=[[a, b, list(c)] for a, b, c in terms], Q=draw(G.st_q()))


def evaluate(text):
    import lie_nn as lie

    return eval(text, dict(vars(lie.irreps)))


def check_printed(case, ctx):
    """What is printed names the label, the multiples, the terms in order."""
    import lie_nn as lie

    g = case["g"]
    terms = [(m, tuple(l)) for m, l in case["terms"]]
    ctx.nontrivial(len(terms) > 1 or terms[0][0] > 1)
    ctx.label(g)
    irs = [G.mk(g, l) for _, l in terms]
    for ir, (m, l) in zip(irs, terms):
        for text in (repr(ir), str(ir)):
            again = evaluate(text)
            require(again == ir and type(again) is type(ir) and G.label_of(g, again) == l, f"{g} {l} printed as {text!r}")
        x = lie.MulIrrep(m, ir)
        a, _, b = repr(x).partition("x")
        require(int(a) == m and evaluate(b) == ir, f"{m} times {ir} printed as {x!r}")
    red = lie.ReducedRep.from_irreps([(m, ir) for (m, _), ir in zip(terms, irs)])
    parts = [t.strip().partition("x") for t in repr(red).split(" + ")]
    require([(int(a), evaluate(b)) for a, _, b in parts] == [(m, ir) for (m, _), ir in zip(terms, irs)], f"sum printed as {red!r}")
    d = red.dim
    if d:
        q = lie.ReducedRep(red.A, red.irreps, np.eye(d))
        require(repr(red) in repr(q) and repr(q) != repr(red), f"sum in a basis printed as {q!r}")
        gen = repr(lie.GenericRep.from_rep(red)) if d <= 30 else None
        if gen:
            for part in (f"dim={d}", f"lie_dim={G.LIE_DIM[g]}", f"len(H)={G.N_H[g]}"):
                require(part in gen, f"{part} is not in {gen!r}")


@st.composite
def st_printed(draw, tier):
    g = draw(st.sampled_from(G.GROUPS))
    m = dict(SU4=20, SU3=15, SO13=9, SL2C=16).get(g, 30)
    mul = st.one_of(st.integers(0, 3), st.integers(0, 130))
    return dict(g=g, terms=[list(t) for t in draw(st.lists(st.tuples(mul, G.st_label(g, m)), min_size=1, max_size=5))])


def check_family(case, ctx):
    """Labels of SU(N), SO(N), Sp(N) for any N."""
    import importlib

    f, S = case["f"], tuple(case["S"])
    c = getattr(importlib.import_module(f"lie_nn._src.irreps.{f.lower()}"), f)
    text = "(" + ",".join(map(str, S)) + ")"
    ctx.nontrivial(len(S) > 1 and max(S) > 9)
    ctx.label(f"{f} {len(S)}")
    r = c.from_string((WS[case["w"][0]] + text + WS[case["w"][1]]))
    require(type(r) is c and r.S == S and all(type(x) is int for x in r.S) and r == c(S), f"{f} {text!r} parsed as {r}")
    again = eval(repr(r), {f: c})
    require(type(again) is c and again.S == S, f"{f}{S} printed as {r!r}")


@st.composite
def st_family(draw, tier):
    f = draw(st.sampled_from(["SUN", "SON", "SPN"]))
    S = draw(st.lists(st.one_of(st.integers(0, 4), st.integers(0, 130)), min_size=1 if f == "SUN" else 2, max_size=9))
    if f == "SUN":
        S = sorted(S, reverse=True)[:-1] + [0]
    w = st.integers(0, 5)
    return dict(f=f, S=S, w=[draw(w), draw(w)])


def sweep(tier):
    return [dict(g=g, l=list(l), w=[0, 0]) for g in TEXT_GROUPS for l in G.labels(g, 40)]


def components(tier):
    return [
        Component("printed", check_printed, "several terms or a multiplicity above one", strategy=st_printed, n=dict(quick=800, thorough=3000), shards=8),
        Component("sweep", check_irrep, "labels other than the smallest", sweep=sweep, shards=4),
        Component("irreps", check_irrep, "labels other than the smallest", strategy=st_text, n=dict(quick=1800, thorough=6000)),
        Component("families", check_family, "several entries, one with two digits", strategy=st_family, n=dict(quick=1000, thorough=4000)),
        Component("sums", check_sum, "several terms or a multiplicity above one", strategy=st_sum, n=dict(quick=1500, thorough=8000)),
    ]
