"""Case descriptors (JSON-able), their Hypothesis strategies and the builders.

Strategies never call lie_nn: a case is a pure description."""
import functools
import itertools

import numpy as np
from hypothesis import strategies as st

from . import oracle as O

GROUPS = ["SO3", "O3", "SU2", "SU2Real", "SL2C", "SO13", "SU2_", "SU3", "SU4", "Z2"]
COMPACT = ["SO3", "O3", "SU2", "SU2Real", "SL2C", "SU2_", "SU3", "SU4", "Z2"]
# groups whose labels are irreducible over the complex numbers for every label
LIE_DIM = dict(SO3=3, O3=3, SU2=3, SU2Real=3, SL2C=6, SO13=6, SU2_=3, SU3=8, SU4=15, Z2=0)
N_H = dict(SO3=0, O3=1, SU2=0, SU2Real=0, SL2C=0, SO13=0, SU2_=0, SU3=0, SU4=0, Z2=1)
# irreps of products of groups (lie_nn.group_product of tabulated irreps)
PGROUPS = ["SU2*Z2", "O3*SU2", "Z2*SO3", "SU2*SU2", "SU3*Z2", "Z2*Z2", "SU2*Z2*SO3"]
ANY_GROUPS = GROUPS + PGROUPS  # for enumerations
REPGROUPS = GROUPS * 3 + PGROUPS  # to draw from


@functools.lru_cache(maxsize=None)
def labels(group, maxdim, order=None):
    """All labels of the group with dimension <= maxdim (and, if given, entries <= order)."""
    out = []
    M = maxdim if order is None else min(maxdim, order)
    if "*" in group:
        out = [()]
        for f in group.split("*"):
            out = [x + y for x in out for y in labels(f, maxdim, order)]
    elif group == "SO3":
        out = [(l,) for l in range(M + 1)]
    elif group == "O3":
        out = [(l, p) for l in range(M + 1) for p in (1, -1)]
    elif group == "SU2":
        out = [(j,) for j in range(M + 1)]
    elif group == "SU2Real":
        out = [(j,) for j in range(M + 1)]
    elif group == "Z2":
        out = [(1,), (-1,)]
    elif group in ("SL2C", "SO13"):
        out = [
            (l, k)
            for l in range(M + 1)
            for k in range(min(M, maxdim // (l + 1)) + 1)
            if group == "SL2C" or (l + k) % 2 == 0
        ]
    elif group in ("SU2_", "SU3", "SU4"):
        n = {"SU2_": 2, "SU3": 3, "SU4": 4}[group]

        def rec(S):
            # the dimension grows with every Dynkin label (difference of consecutive entries)
            if len(S) == n:
                out.append(tuple(x - S[-1] for x in S))
                return
            for a in range(M + 1):
                T = S + (S[-1] - a,)
                full = T + (T[-1],) * (n - len(T))
                if O.weyl_dim_sun(full) > maxdim:
                    break
                rec(T)

        rec((0,))
        if order is not None:
            out = [l for l in out if max(l) <= order]
    out = [l for l in out if O.label_dim(group, l) <= maxdim]
    out.sort(key=lambda l: (O.label_dim(group, l), sum(abs(x) for x in l), l))
    return tuple(out)


def mk(group, label):
    import lie_nn as lie

    label = tuple(label)
    if "*" in group:
        return lie.group_product(*(mk(f, x) for f, x in O.split(group, label)))
    cls = getattr(lie.irreps, group)
    if group in ("SU2_", "SU3", "SU4"):
        return cls(label)
    if group == "SU2Real":
        j = label[0] / 2
        return cls(j)
    return cls(*label)


def label_of(group, irrep):
    """Inverse of mk, from the public fields."""
    if "*" in group:
        rest, last = group.rsplit("*", 1)
        return label_of(rest, irrep.rep1) + label_of(last, irrep.rep2)
    if group in ("SU2_", "SU3", "SU4"):
        return tuple(int(x) for x in irrep.S)
    if group in ("SO3",):
        return (int(irrep.l),)
    if group == "O3":
        return (int(irrep.l), int(irrep.p))
    if group == "SU2":
        return (int(irrep.j),)
    if group == "SU2Real":
        return (int(round(2 * irrep.j)),)
    if group in ("SL2C", "SO13"):
        return (int(irrep.l), int(irrep.k))
    if group == "Z2":
        return (int(irrep.p),)
    raise KeyError(group)


def text_of(group, label):
    label = tuple(label)
    if group in ("SU2_", "SU3", "SU4", "SL2C", "SO13"):
        return "(" + ",".join(str(x) for x in label) + ")"
    if group in ("SO3", "SU2"):
        return str(label[0])
    if group == "O3":
        return f"{label[0]}{'e' if label[1] == 1 else 'o'}"
    if group == "Z2":
        return {1: "e", -1: "o"}[label[0]]
    raise KeyError(group)


def st_label(group, maxdim, order=None):
    return st.sampled_from([list(l) for l in labels(group, maxdim, order)])


@st.composite
def st_irrep(draw, groups=GROUPS, maxdim=9):
    g = draw(st.sampled_from(list(groups)))
    md = maxdim[g] if isinstance(maxdim, dict) else maxdim
    return dict(t="irrep", g=g, l=draw(st_label(g, md)))


# ------------------------------------------------------------------ matrices

QKINDS = ["id", "perm", "diag", "shear", "givens", "rot", "dense", "signs", "near", "cdiag", "unitary", "cdense", "cnear"]
REAL_Q = QKINDS[:9]
ORTH_Q = ["id", "perm", "givens", "rot"]
UNIT_Q = ["id", "perm", "givens", "rot", "cphase", "unitary"]


def st_q(kinds=QKINDS):
    return st.builds(
        lambda k, s: dict(k=k, s=s), st.sampled_from(list(kinds)), st.integers(0, 2**16)
    )


def st_qz(kinds=QKINDS):
    """A change of basis of a representation: its overall scale does not matter."""
    return st.builds(
        lambda k, s, z: dict(k=k, s=s, z=z) if z else dict(k=k, s=s),
        st.sampled_from(list(kinds)), st.integers(0, 2**16), st.sampled_from([0] * 12 + [-6, -4, -1, 2, 5]),
    )


def build_q(q, n):
    """Invertible n x n matrix with condition number <= ~6."""
    if q.get("z"):
        return build_q(dict(k=q["k"], s=q["s"]), n) * 10.0 ** q["z"]
    rs = np.random.RandomState(q["s"])
    k = q["k"]
    if n == 0 or k == "id":
        return np.eye(n)
    if k == "perm":
        m = np.zeros((n, n))
        m[rs.permutation(n), np.arange(n)] = 1.0
        return m
    if k == "diag":
        return np.diag(rs.choice([-1.0, 1.0], n) * rs.choice([0.5, 1.0, 1.5, 2.0], n))
    if k == "signs":
        # almost nothing happens: some signs only
        v = rs.choice([-1.0, 1.0], n)
        v[rs.randint(n)] = -1.0
        return np.diag(v)
    if k in ("near", "cnear"):
        # close to the identity
        m = rs.normal(size=(n, n))
        m = m / np.linalg.norm(m)
        return np.eye(n) + m * rs.choice([1e-2, 1e-3, 1e-5]) * (1 if k == "near" else 1j)
    if k == "shear":
        m = np.eye(n)
        if n > 1:
            i, j = rs.choice(n, 2, replace=False)
            m[i, j] = rs.choice([-1.0, 0.5, 1.0])
        return m
    if k == "givens":
        m = np.eye(n)
        if n > 1:
            i, j = rs.choice(n, 2, replace=False)
            t = rs.choice([np.pi / 2, np.pi / 3, 1.0])
            m[i, i] = m[j, j] = np.cos(t)
            m[i, j] = np.sin(t)
            m[j, i] = -np.sin(t)
        return m
    if k == "rot":
        a, _ = np.linalg.qr(rs.normal(size=(n, n)))
        return a
    if k == "dense":
        a, _ = np.linalg.qr(rs.normal(size=(n, n)))
        b, _ = np.linalg.qr(rs.normal(size=(n, n)))
        return a @ np.diag(rs.uniform(0.6, 2.0, n)) @ b
    if k == "cphase":
        return np.diag(np.exp(2j * np.pi * rs.randint(0, 8, n) / 8))
    if k == "cdiag":
        return np.diag(np.exp(2j * np.pi * rs.randint(0, 8, n) / 8) * rs.choice([0.5, 1.0, 2.0], n))
    c = lambda: rs.normal(size=(n, n)) + 1j * rs.normal(size=(n, n))
    if k == "unitary":
        a, _ = np.linalg.qr(c())
        return a
    if k == "cdense":
        a, _ = np.linalg.qr(c())
        b, _ = np.linalg.qr(c())
        return a @ np.diag(rs.uniform(0.6, 2.0, n)) @ b
    raise KeyError(k)


# ------------------------------------------------------------------ representations
# {"t":"irrep","g":group,"l":label}
# {"t":"mul","m":mul,"r":irrep}
# {"t":"red","r":[[mul, irrep], ...],"Q":q or None}       all irreps of the same group
# {"t":"gen","r":rep,"Q":q}                               GenericRep in another basis
# {"t":"sum","a":rep,"b":rep}                             lie_nn.direct_sum
# {"t":"conj","r":rep}


# {"t":"fin","g":"Q8","r":[[mul, index], ...],"Q":q or None}   finite group, GenericRep


def group_of(d):
    t = d["t"]
    if t == "fin":
        return d["g"]
    if t == "irrep":
        return d["g"]
    if t in ("mul", "gen", "conj"):
        return group_of(d["r"])
    if t == "red":
        return group_of(d["r"][0][1])
    if t == "sum":
        return group_of(d["a"])
    raise KeyError(t)


def dim_of(d):
    t = d["t"]
    if t == "fin":
        return sum(m * O.fin_dim(d["g"], i) for m, i in d["r"])
    if t == "irrep":
        return O.label_dim(d["g"], d["l"])
    if t == "mul":
        return d["m"] * dim_of(d["r"])
    if t == "red":
        return sum(m * dim_of(r) for m, r in d["r"])
    if t in ("gen", "conj"):
        return dim_of(d["r"])
    if t == "sum":
        return dim_of(d["a"]) + dim_of(d["b"])
    raise KeyError(t)


def content(d):
    """dict label -> multiplicity of the irreps in d (labels of the group)."""
    t = d["t"]
    if t == "fin":
        out = {}
        for m, i in d["r"]:
            if m:
                out[(i,)] = out.get((i,), 0) + m
        return out
    if t == "irrep":
        return {tuple(d["l"]): 1}
    if t == "mul":
        return {k: v * d["m"] for k, v in content(d["r"]).items()}
    if t == "red":
        out = {}
        for m, r in d["r"]:
            for k, v in content(r).items():
                out[k] = out.get(k, 0) + m * v
        return {k: v for k, v in out.items() if v}
    if t == "gen":
        return content(d["r"])
    if t == "sum":
        out = dict(content(d["a"]))
        for k, v in content(d["b"]).items():
            out[k] = out.get(k, 0) + v
        return out
    raise KeyError(t)


def layout(d):
    """How the arrays of a GenericRep lie in memory: anything NumPy offers."""
    q = d.get("Q")
    s = q["s"] % 4 if q else 0

    def f(x):
        if s == 1:
            return np.asfortranarray(x)
        if s == 2:  # nobody may write into an operand
            x = x.copy()
            x.flags.writeable = False
            return x
        if s == 3:  # a view with gaps
            y = np.zeros(tuple(2 * n for n in x.shape), dtype=x.dtype)
            y[...] = 7
            z = y[tuple(slice(None, None, 2) for _ in x.shape)]
            z[...] = x
            return z
        return x

    return f


def build(d):
    import lie_nn as lie

    t = d["t"]
    if t == "fin":
        how = d.get("as", "gen")
        if how == "gen":
            return lie.GenericRep(*map(layout(d), dense(d)))
        if how == "int":  # matrices of integers are given as such
            A, X, H = dense(d)
            whole = lambda x: x.dtype.kind == "f" and np.array_equal(x, np.round(x))  # noqa: E731
            return lie.GenericRep(*(x.astype(int) if whole(x) else x for x in (A, X, H)))
        irr = [dense(dict(t="fin", g=d["g"], r=[[1, i]], Q=None)) for _, i in d["r"]]
        muls = [lie.MulIrrep(m, lie.GenericRep(*x)) for (m, _), x in zip(d["r"], irr)]
        if how == "mul" and len(muls) == 1 and d["Q"] is None:
            return muls[0]
        return lie.ReducedRep.from_irreps(muls, None if d["Q"] is None else build_q(d["Q"], dim_of(d)))
    if t == "irrep":
        return mk(d["g"], d["l"])
    if t == "mul":
        return lie.MulIrrep(d["m"], build(d["r"]))
    if t == "red":
        Q = None if d["Q"] is None else build_q(d["Q"], dim_of(d))
        return lie.ReducedRep.from_irreps([(m, build(r)) for m, r in d["r"]], Q)
    if t == "gen":
        A, X, H = map(layout(d), dense(d))
        return lie.GenericRep(A, X, H)
    if t == "sum":
        return lie.direct_sum(build(d["a"]), build(d["b"]))
    if t == "conj":
        return lie.conjugate(build(d["r"]))
    raise KeyError(t)


def irrep_dense(d):
    r = mk(d["g"], d["l"])
    return r.algebra(), r.continuous_generators(), r.discrete_generators()


def dense(d):
    """The dense matrices described by d, composed here (only the irreps come from lie_nn)."""
    t = d["t"]
    if t == "fin":
        irr = O.FINITE[d["g"]]
        nH = len(irr[0])
        H = [O.m_direct_sum([irr[i][a] for m, i in d["r"] for _ in range(m)]) for a in range(nH)]
        n = dim_of(d)
        A, X = np.zeros((0, 0, 0)), np.zeros((0, n, n))
        if d["g"] in O.FINITE_X:
            A, xs = O.FINITE_A[d["g"]], O.FINITE_X[d["g"]]
            X = np.stack([O.m_direct_sum([xs[i][a] for m, i in d["r"] for _ in range(m)]) for a in range(len(A))])
        H = np.stack(H) if H else np.zeros((0, n, n), dtype=np.complex128)
        # real matrices are given as such
        X, H = (x if np.any(x.imag) else x.real for x in (X, H))
        out = (A.copy(), X.copy(), H.copy())
        return out if d["Q"] is None else O.d_basis(out, build_q(d["Q"], n))
    if t == "irrep":
        return irrep_dense(d)
    if t == "mul":
        r = irrep_dense(d["r"])
        if d["m"] == 0:
            return r[0], np.zeros((len(r[1]), 0, 0)), np.zeros((len(r[2]), 0, 0))
        return O.d_sum([r] * d["m"])
    if t == "red":
        parts = [irrep_dense(r) for m, r in d["r"] for _ in range(m)]
        if not parts:
            r = irrep_dense(d["r"][0][1])
            return r[0], np.zeros((len(r[1]), 0, 0)), np.zeros((len(r[2]), 0, 0))
        out = O.d_sum(parts)
        if d["Q"] is not None:
            out = O.d_basis(out, build_q(d["Q"], dim_of(d)))
        return out
    if t == "gen":
        r = dense(d["r"])
        return O.d_basis(r, build_q(d["Q"], dim_of(d)))
    if t == "sum":
        return O.d_sum([dense(d["a"]), dense(d["b"])])
    if t == "conj":
        return O.d_conj(dense(d["r"]))
    raise KeyError(t)


# per group: labels available so that composite representations stay small


@st.composite
def st_terms(draw, group, maxdim, max_terms=5, max_mul=5, allow_zero=False, irr_max=None):
    """[[mul, irrep], ...] with total dim <= maxdim, at least one term."""
    terms = []
    left = maxdim
    n = draw(st.integers(1, max_terms))
    lo = 0 if allow_zero else 1
    for _ in range(n):
        if left < 1:
            break
        lab = draw(st_label(group, min(left, irr_max or left)))
        d = O.label_dim(group, lab)
        m = draw(st.integers(lo, max(lo, min(max_mul, left // d))))
        left -= m * d
        terms.append([m, dict(t="irrep", g=group, l=lab)])
    if all(m == 0 for m, _ in terms):
        terms[0][0] = 1
    return terms


@st.composite
def st_red(draw, group, maxdim, q=True, kinds=QKINDS, **kw):
    terms = draw(st_terms(group, maxdim, **kw))
    Q = draw(st.one_of(st.none(), st_qz(kinds))) if q else None
    return dict(t="red", r=terms, Q=Q)


@st.composite
def st_mul(draw, group, maxdim, max_mul=6, lo=1):
    lab = draw(st_label(group, maxdim))
    d = O.label_dim(group, lab)
    m = draw(st.integers(lo, max(lo, min(max_mul, maxdim // d))))
    return dict(t="mul", m=m, r=dict(t="irrep", g=group, l=lab))


@st.composite
def st_rep(draw, group, maxdim, types=("irrep", "mul", "red", "gen", "sum"), kinds=QKINDS, **kw):
    t = draw(st.sampled_from(list(types)))
    if t == "irrep":
        return dict(t="irrep", g=group, l=draw(st_label(group, maxdim)))
    if t == "mul":
        return draw(st_mul(group, maxdim))
    if t == "red":
        return draw(st_red(group, maxdim, kinds=kinds, **kw))
    if t == "gen":
        return dict(t="gen", r=draw(st_red(group, maxdim, q=False, **kw)), Q=draw(st_qz(kinds)))
    if t == "sum":
        if maxdim < 2:
            return dict(t="irrep", g=group, l=draw(st_label(group, maxdim)))
        a = draw(st_rep(group, maxdim - 1, types=("irrep", "mul", "red", "gen"), kinds=kinds))
        b = draw(
            st_rep(group, maxdim - dim_of(a), types=("irrep", "mul", "red", "gen"), kinds=kinds)
        )
        return dict(t="sum", a=a, b=b)
    raise KeyError(t)


def st_alg(n, small=False):
    """An element of the Lie algebra: list of n numbers k/8."""
    m = 8 if small else 12
    return st.lists(st.integers(-m, m).map(lambda k: k / 8), min_size=n, max_size=n)


FIN = ("Z3", "Z4", "S3", "Q8", "D4", "S4", "V8", "S4c", "Pauli", "Dic3", "O2", "Pin2", "SU2xQ8", "T2", "SU2xU1", "U1xSU2", "SL2R")


@st.composite
def st_fin(draw, maxdim=6, kinds=QKINDS, groups=FIN, max_mul=3, shapes=("gen",)):
    """shapes: how the representation is presented (matrices, a multiple, a sum of irreps)"""
    g = draw(st.sampled_from(list(groups)))
    irr = O.FINITE[g]
    terms = []
    left = maxdim
    for _ in range(draw(st.integers(1, 4))):
        ok = [i for i in range(len(irr)) if O.fin_dim(g, i) <= left]
        if not ok:
            break
        i = draw(st.sampled_from(ok))
        d = O.fin_dim(g, i)
        m = draw(st.integers(1, max(1, min(max_mul, left // d))))
        left -= m * d
        terms.append([m, i])
    out = dict(t="fin", g=g, r=terms, Q=draw(st.one_of(st.none(), st_qz(kinds))))
    how = draw(st.sampled_from(list(shapes)))
    if how != "gen":
        out["as"] = how
    if how == "mul":
        out["r"], out["Q"] = terms[:1], None
    return out


ALL_SHAPES = ("gen", "red", "mul")
# computations which involve no decomposition also accept matrices of integers
INT_SHAPES = ("gen", "red", "mul", "int")
