"""Helpers on arrays: sums, products, commutators, mapping over axes, clustering."""
from .common import *
import itertools

ASSUMPTIONS = ["arrays of small shapes; clusters clearly separated or clearly overlapping"]


def arr_(rs, kind, *s):
    if kind == "i":
        return rs.randint(-3, 4, s).astype(float)
    if kind == "c":
        return rs.normal(size=s) + 1j * rs.normal(size=s)
    return rs.normal(size=s)


def check_matrices(case, ctx):
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    kinds, shapes, batch = case["k"], case["shapes"], tuple(case["batch"])
    Ms = []
    for i, (k, (m, n)) in enumerate(zip(kinds, shapes)):
        b = batch
        if case["bcast"] and i % 2:
            b = tuple(1 for _ in batch) if case["bcast"] == 1 else batch[1:]
        Ms.append(arr_(rs, k, *b, m, n))
    copies = [m.copy() for m in Ms]
    ctx.nontrivial(len(Ms) > 1 and max(max(s) for s in shapes) > 1)
    ctx.label(f"{len(Ms)} arrays")
    # direct sum over the last two axes, broadcasting the rest
    got = lie.util.direct_sum(*Ms)
    R, C = sum(s[0] for s in shapes), sum(s[1] for s in shapes)
    full = np.broadcast_shapes(*[m.shape[:-2] for m in Ms])
    if len(Ms) > 1:
        want = np.zeros(full + (R, C), dtype=complex)
        for idx in itertools.product(*map(range, full)):
            want[idx] = O.m_direct_sum([np.broadcast_to(m, full + m.shape[-2:])[idx] for m in Ms])
    else:
        want = Ms[0]
    require(got.shape == want.shape, f"direct_sum: shape {got.shape}")
    require(np.array_equal(got, want), "direct_sum")
    # Kronecker product of matrices
    two = [m[(0,) * (m.ndim - 2)] for m in Ms]
    if np.prod([t.size for t in two]) < 5000:
        got = lie.util.kron(*two)
        w = np.ones((1, 1))
        for t in two:
            w = O.kron(w, t)
        close(got, w, "kron", 1e-12)
    # block diagonal of stacks
    stacks = [arr_(rs, k, case["n"], m, n) for k, (m, n) in zip(kinds, shapes)]
    got = lie.util.block_diagonal(stacks)
    want = np.array([O.m_direct_sum([s[i] for s in stacks]) for i in range(case["n"])]).reshape(case["n"], R, C)
    require(got.shape == want.shape, f"block_diagonal: shape {got.shape}")
    require(np.array_equal(got, want), "block_diagonal")
    if all(k != "c" for k in kinds):
        require(not np.iscomplexobj(got), "block_diagonal of real arrays is complex")
    for m, c in zip(Ms, copies):
        require(np.array_equal(m, c), "argument modified")
    # commutator
    d = shapes[0][0]
    A, B, C = (arr_(rs, k, *batch, d, d) for k in (kinds * 3)[:3])
    com = lie.util.commutator
    close(com(A, B), np.einsum("...ij,...jk->...ik", A, B) - np.einsum("...ij,...jk->...ik", B, A), "commutator", 1e-10)
    close(com(A, com(B, C)) + com(B, com(C, A)) + com(C, com(A, B)), np.zeros(batch + (d, d)), "Jacobi", 1e-9)
    close(com(A, A), np.zeros(batch + (d, d)), "[A, A] = 0", 1e-12)


@st.composite
def st_matrices(draw, tier):
    n = draw(st.integers(1, 4))
    return dict(
        k=[draw(st.sampled_from("ric")) for _ in range(n)],
        shapes=[[draw(st.integers(0 if draw(st.booleans()) else 1, 4)), draw(st.integers(1, 4))] for _ in range(n)],
        batch=draw(st.lists(st.integers(1, 3), max_size=2)), bcast=draw(st.integers(0, 2)),
        n=draw(st.integers(0, 3)), s=draw(st.integers(0, 10**6)),
    )


def check_vmap(case, ctx):
    """vmap(f)(x, ...)[i] = f(x[i], ...)"""
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    dim = case["dim"]
    args, axes, items = [], [], []
    for shape, ax in zip(case["shapes"], case["axes"]):
        if ax is None:
            a = rs.normal(size=shape)
            args.append(a)
            axes.append(None)
            items.append([a] * dim)
        else:
            ax = ax % (len(shape) + 1)
            a = rs.normal(size=tuple(shape[:ax]) + (dim,) + tuple(shape[ax:]))
            args.append(a)
            axes.append(ax - len(a.shape) if case["neg"] else ax)
            items.append([np.take(a, i, ax) for i in range(dim)])
    if all(a is None for a in axes):
        return
    ctx.nontrivial(dim > 1 and len(args) > 1)

    def one(*xs):
        out = np.zeros((2, 3))
        for i, x in enumerate(xs):
            out = out + (i + 1) * np.sum(np.sin(x)) * np.arange(6.0).reshape(2, 3)
        return out

    out_axis = case["out"]
    f = one if not case["tuple"] else lambda *xs: (one(*xs), np.sum(one(*xs)) * np.ones((4, 5, 2)))
    same = len(set(axes)) == 1 and case["int"] and axes[0] is not None
    in_axes = axes[0] if same else tuple(axes)
    if dim == 0:
        if case["tuple"]:
            return
        g = lie.util.vmap(f, in_axes, out_axis, out_shape=(2, 3))
        want = list((2, 3))
        want.insert(out_axis, 0)
        require(g(*args).shape == tuple(want), "empty axis")
        return
    kw = {}
    if case["tuple"] is False and case["s"] % 2:
        kw = dict(out_shape=(2, 3))
    got = lie.util.vmap(f, in_axes, out_axis, **kw)(*args)
    res = [f(*[it[i] for it in items]) for i in range(dim)]
    if case["tuple"]:
        require(isinstance(got, tuple) and len(got) == 2, "tuple output")
        for k in range(2):
            close(got[k], np.stack([r[k] for r in res], axis=out_axis), "vmap", 1e-12)
    else:
        close(got, np.stack(res, axis=out_axis), "vmap", 1e-12)
    # a wrong size is refused
    if sum(a is not None for a in axes) > 1 and dim > 1:
        # whichever argument is shorter or longer than the others
        k = [i for i, a in enumerate(axes) if a is not None]
        k = k[case["s"] % len(k)]
        bad = list(args)
        bad[k] = np.take(args[k], range(dim - 1) if case["s"] // 4 % 2 else list(range(dim)) + [0], axes[k])
        require(raises(lambda: lie.util.vmap(f, in_axes, out_axis)(*bad)), "axes of different size")


@st.composite
def st_vmap(draw, tier):
    n = draw(st.integers(1, 3))
    return dict(
        dim=draw(st.integers(0, 4)), shapes=[draw(st.lists(st.integers(1, 3), max_size=3)) for _ in range(n)],
        axes=[draw(st.one_of(st.none(), st.integers(0, 3), st.integers(0, 3))) for _ in range(n)], out=draw(st.integers(0, 2)),
        tuple=draw(st.booleans()), int=draw(st.booleans()), neg=draw(st.booleans()), s=draw(st.integers(0, 10**5)),
    )


def check_unique(case, ctx):
    import lie_nn as lie

    rs = np.random.RandomState(case["s"])
    shape = tuple(case["shape"])
    k = case["clusters"]
    tol = case["tol"]
    # centres on a grid, points within tol/4 of them: clusters of diameter < tol at distance > 3 tol
    n = int(np.prod(shape)) if shape else 1
    centres = np.zeros((k, n), dtype=complex if case["c"] else float)
    for i in range(k):
        centres[i, i % n] = (i // n + 1) * tol * 4
        if case["c"]:
            centres[i] = centres[i] * np.exp(1j * i)
    centres = centres + tol * 7
    order = case["assign"]
    assign = [x % k for x in order]
    pts = []
    for a in assign:
        v = rs.normal(size=n) + (1j * rs.normal(size=n) if case["c"] else 0)
        v = v / np.linalg.norm(v)
        pts.append(centres[a] + v * tol * rs.uniform(0, 0.24))
    x = np.array(pts).reshape((len(pts),) + shape)
    x0 = x.copy()
    ctx.nontrivial(len(set(assign)) > 1)
    got, inv = lie.util.unique_with_tol(x, tol=tol)
    require(np.array_equal(x, x0), "argument modified")
    # numbering by first appearance
    first = []
    for a in assign:
        if a not in first:
            first.append(a)
    want = [first.index(a) for a in assign]
    require(list(np.asarray(inv)) == want, f"inverses {list(inv)}, expected {want}")
    require(got.shape == (len(first),) + shape, f"centers of shape {got.shape}")
    for i in range(len(first)):
        mean = np.mean(x[[j for j, w in enumerate(want) if w == i]], axis=0)
        close(got[i], mean, "centers are means", 1e-9, mat_scale(x))
    # a chain of points, each close to the next, is no clear clustering
    if n == 1 and not case["c"] and not shape:
        chain = np.array([0.0, 0.7 * tol, 1.4 * tol])
        require(raises(lambda: lie.util.unique_with_tol(chain, tol=tol), ValueError), "a chain was clustered")


@st.composite
def st_unique(draw, tier):
    return dict(
        shape=draw(st.sampled_from([[], [], [3], [2, 2], [1]])), clusters=draw(st.integers(1, 5)), c=draw(st.booleans()),
        tol=draw(st.sampled_from([1e-6, 1e-2, 1.0])), assign=draw(st.lists(st.integers(0, 9), min_size=1, max_size=9)), s=draw(st.integers(0, 10**5)),
    )


def check_sign(case, ctx):
    import lie_nn as lie

    p, q = tuple(case["p"]), tuple(case["q"])
    n = len(p)
    ctx.nontrivial(n > 2)
    s = lie.util.permutation_sign
    M = np.zeros((n, n))
    M[range(n), p] = 1
    require(s(p) == round(np.linalg.det(M)) if n else s(p) == 1, f"sign of {p}")
    require(s(tuple(p[i] for i in q)) == s(p) * s(q), "multiplicative")
    # sequences of distinct comparable items are fine too
    t = tuple(3 * x + 1 for x in p)
    require(s(t) == s(p), "only the order counts")


@st.composite
def st_sign(draw, tier):
    n = draw(st.integers(0, 9))
    perm = st.permutations(range(n)).map(list)
    return dict(p=draw(perm), q=draw(perm))


def sweep_matrices(tier):
    """many arrays, large arrays, long batches"""
    out = []
    cfg = [
        ("rrrrrrrrr", [[2, 3]] * 9, [2], 0, 3), ("rcri", [[40, 30], [1, 70], [33, 2], [9, 9]], [], 0, 2), ("ii", [[64, 65], [80, 1]], [3], 1, 4),
        ("rc", [[5, 5], [6, 6]], [40, 2], 2, 50), ("cr", [[70, 70], [70, 70]], [], 0, 1), ("r" * 40, [[1, 2]] * 40, [], 0, 2), ("rrrr", [[17, 1], [1, 17], [33, 5], [2, 2]], [2, 3], 1, 130),
    ]
    for i, (k, shapes, batch, bc, n) in enumerate(cfg):
        out.append(dict(k=list(k), shapes=shapes, batch=batch, bcast=bc, n=n, s=i))
    return out


def sweep_vmap(tier):
    out = []
    for i, dim in enumerate((17, 40, 129, 300)):
        for axes, shapes in (([0, 1], [[3], [4, 2]]), ([1, None, 2], [[20, 3], [2], [3, 5]]), ([2], [[4, 3, 2]])):
            for out_axis in (0, 1, 2):
                out.append(dict(dim=dim, shapes=shapes, axes=axes, out=out_axis, tuple=bool((i + out_axis) % 2), int=False, neg=bool(out_axis % 2), s=i))
    return out


def sweep_unique(tier):
    out = []
    rs = np.random.RandomState(5)
    for i, (k, n, shape) in enumerate([(20, 60, []), (64, 200, []), (7, 130, [3]), (30, 90, [2, 2]), (130, 260, []), (1, 70, [5]), (90, 90, [12])]):
        for c in (False, True):
            if c and shape == [] and k > 5:
                continue  # centres rotate over each other
            out.append(dict(shape=shape, clusters=k, c=c, tol=[1e-6, 1e-2, 1.0][i % 3], assign=[int(x) for x in rs.randint(0, k, n)], s=i))
    return out


def sweep_sign(tier):
    rs = np.random.RandomState(3)
    return [dict(p=[int(x) for x in rs.permutation(n)], q=[int(x) for x in rs.permutation(n)]) for n in (10, 12, 15, 16, 17, 20, 25, 31, 33, 40, 64, 65) for _ in range(4)]


def components(tier):
    return [
        Component("large matrices", check_matrices, "several matrices larger than 1 x 1", sweep=sweep_matrices),
        Component("long axes", check_vmap, "several arguments, axis longer than 1", sweep=sweep_vmap),
        Component("many clusters", check_unique, "more than one cluster", sweep=sweep_unique),
        Component("long permutations", check_sign, "more than two elements", sweep=sweep_sign),
        Component("matrices", check_matrices, "several matrices larger than 1 x 1", strategy=st_matrices, n=dict(quick=12000, thorough=20000), shards=8),
        Component("vmap", check_vmap, "several arguments, axis longer than 1", strategy=st_vmap, n=dict(quick=9000, thorough=15000), shards=8),
        Component("clusters", check_unique, "more than one cluster", strategy=st_unique, n=dict(quick=9000, thorough=15000), shards=8),
        Component("sign", check_sign, "more than two elements", strategy=st_sign, n=dict(quick=6000, thorough=10000), shards=8),
        Component("all signs", check_sign, "more than two elements", sweep=lambda t: [dict(p=list(p), q=list(p)) for n in range(1, 6 if t == "quick" else 8) for p in itertools.permutations(range(n))], shards=8),
    ]
