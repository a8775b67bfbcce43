"""The Clebsch-Gordan coefficients of a pair of irreps, taken together, are complete and normalised."""
from .cgcommon import *

ASSUMPTIONS = ["multiplicities from Klimyk's formula / the triangle rule"]


def check_pair(case, ctx):
    import lie_nn as lie

    g, l1, l2 = case["g"], tuple(case["l1"]), tuple(case["l2"])
    r1, r2 = G.mk(g, l1), G.mk(g, l2)
    d1, d2 = r1.dim, r2.dim
    want = O.product(g, l1, l2)
    rows = []
    for l3, m in want.items():
        r3 = G.mk(g, l3)
        cg = O.has_shape(lie.clebsch_gordan(r1, r2, r3), (m, d1, d2, r3.dim), f"cg of {l1} {l2} {l3}")
        rows.append(np.moveaxis(cg, 3, 1).reshape(m * r3.dim, d1 * d2))
        # each solution has squared norm dim(r3): sum_ijk |c|^2
        if g != "SO13":
            gram = np.einsum("zijk,wijl->zkwl", cg, np.conj(cg)).reshape(m * r3.dim, m * r3.dim)
            close(gram, np.eye(m * r3.dim), f"orthonormality within {l3}", TOL[g] * 10)
    ctx.label(g)
    ctx.nontrivial(len(want) > 1)
    if any(m > 1 for m in want.values()):
        ctx.label(f"{g} multiplicity>1")
    M = np.concatenate(rows)
    require(M.shape == (d1 * d2, d1 * d2), f"{M.shape[0]} coupled states for {d1 * d2} products")
    if g != "SO13":
        close(M @ np.conj(M.T), np.eye(d1 * d2), "the coupling is unitary", TOL[g] * 10)
        close(np.conj(M.T) @ M, np.eye(d1 * d2), "the coupling is complete", TOL[g] * 10)
    else:
        s = np.linalg.svd(M, compute_uv=False)
        require(s[-1] > 1e-3 * s[0], f"the coupling is singular ({s[-1]:.3g} / {s[0]:.3g})")
    # block-diagonal in the new basis: M (X1 x 1 + 1 x X2) = (sum of X3) M
    t1, t2 = ((None, r.continuous_generators(), r.discrete_generators()) for r in (r1, r2))
    blocks = [(m, G.mk(g, l3)) for l3, m in want.items()]
    for old1, old2, new in ((t1[1], t2[1], "X"), (t1[2], t2[2], "H")):
        for i in range(len(old1)):
            if new == "X":
                P = np.kron(old1[i], np.eye(d2)) + np.kron(np.eye(d1), old2[i])
            else:
                P = np.kron(old1[i], old2[i])
            B = O.m_direct_sum([getattr(r3, new)[i] for m, r3 in blocks for _ in range(m)])
            close(M @ P, B @ M, f"{new}[{i}] in the coupled basis", TOL[g] * 10, mat_scale(P, B) * mat_scale(M))
    # forbidden outputs
    for l3 in case.get("f", []):
        l3 = tuple(l3)
        if l3 in want:
            continue
        r3 = G.mk(g, l3)
        cg = lie.clebsch_gordan(r1, r2, r3)
        O.has_shape(cg, (0, d1, d2, r3.dim), f"forbidden {l1} {l2} {l3}")
    # coupling with the trivial irrep and exchanging the factors keep the multiplicities
    if case.get("x"):
        for l3, m in want.items():
            if d1 * d2 * O.label_dim(g, l3) <= CUBE["quick"][g]:
                cg = lie.clebsch_gordan(r2, r1, G.mk(g, l3))
                require(cg.shape[0] == m, f"{l2} x {l1} -> {l3} has {cg.shape[0]} paths, not {m}")


def groups():
    return [g for g in G.GROUPS if g != "SU2Real"]


def even(g, l):
    return g != "SU2Real" or l[0] % 2 == 0


def sweep(tier):
    out = []
    lim = dict(SO3=40, O3=25, SU2=30, SU2Real=30, SL2C=20, SO13=16, SU2_=25, SU3=64, SU4=60, Z2=1)
    f = 1 if tier == "quick" else 3
    for g in G.GROUPS:
        for a, b in pairs(g, lim[g] if g in ("SU4", "SO13") else lim[g] * f):
            if even(g, a) and even(g, b) and O.label_dim(g, a) <= 27:
                if trivial_pair(g, a, b):
                    continue
                if g in ("SU3", "SU4") and tier == "quick" and O.label_dim(g, a) * O.label_dim(g, b) > 36:
                    # the pairs with several paths only
                    if max(O.product(g, a, b).values()) < 2 and O.label_dim(g, a) * O.label_dim(g, b) != 60:
                        continue
                out.append(dict(g=g, l1=list(a), l2=list(b)))
    out.sort(key=lambda c: -O.label_dim(c["g"], c["l1"]) * O.label_dim(c["g"], c["l2"]))
    return out


@st.composite
def random_pair(draw, tier):
    g = draw(st.sampled_from(groups()))
    l1, l2 = draw(st_pair(g, PAIR[tier][g]))
    f = draw(st.lists(G.st_label(g, 10 if g != "SO13" else 6), max_size=3))
    return dict(g=g, l1=list(l1), l2=list(l2), f=f, x=draw(st.booleans()))


def components(tier):
    return [
        Component("sweep", check_pair, "pairs coupling to more than one irrep", sweep=sweep),
        Component("random", check_pair, "pairs coupling to more than one irrep", strategy=random_pair, n=dict(quick=160, thorough=2000)),
    ]
