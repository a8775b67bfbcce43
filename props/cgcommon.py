from .common import *

# bound on d1 * d2 * d3 resp. d1 * d2 by group: keeps one case below about a second (quick)
CUBE = {
    "quick": dict(SO3=800, O3=600, SU2=700, SU2Real=200, SL2C=700, SO13=260, SU2_=350, SU3=600, SU4=600, Z2=1),
    "thorough": dict(SO3=6000, O3=4000, SU2=6000, SU2Real=500, SL2C=5000, SO13=700, SU2_=1500, SU3=6000, SU4=6000, Z2=1),
}
PAIR = {
    "quick": dict(SO3=150, O3=100, SU2=120, SU2Real=100, SL2C=120, SO13=40, SU2_=64, SU3=64, SU4=60, Z2=1),
    "thorough": dict(SO3=400, O3=300, SU2=400, SU2Real=200, SL2C=400, SO13=100, SU2_=150, SU3=225, SU4=160, Z2=1),
}


def pairs(g, bound, min_dim=1):
    labs = [l for l in G.labels(g, bound) if O.label_dim(g, l) >= min_dim]
    out = []
    for a in labs:
        for b in labs:
            if O.label_dim(g, a) * O.label_dim(g, b) <= bound:
                out.append((a, b))
    return out


_pairs = {}


def st_pair(g, bound):
    if (g, bound) not in _pairs:
        labs = G.labels(g, bound)
        _pairs[g, bound] = [l for l in labs]
    labs = _pairs[g, bound]

    @st.composite
    def f(draw):
        # the smaller one first, then something that fits, then perhaps exchanged
        small = [l for l in labs if O.label_dim(g, l) ** 2 <= bound]
        a = draw(st.sampled_from(small))
        da = O.label_dim(g, a)
        b = draw(st.sampled_from([l for l in labs if O.label_dim(g, l) * da <= bound]))
        return (b, a) if draw(st.booleans()) else (a, b)

    return f()


def trivial_pair(g, a, b):
    """Coupling of a large irrep with a scalar: expensive and not very informative."""
    d = sorted((O.label_dim(g, a), O.label_dim(g, b)))
    return d[0] == 1 and d[1] > 8
