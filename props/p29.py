"""Histories: any sequence of operations on a pool of representations behaves like the matrices do."""
import os
import signal

from .repcases import *

ASSUMPTIONS = [
    "dimensions up to 12 (quick) or 20 (thorough), well conditioned changes of basis",
    "half-integer irreps of the real form of SU(2) take part only as generic representations",
    "a generic representation refers to the arrays it was built from; only arrays returned for labels are overwritten",
]

KINDS = ["id", "perm", "diag", "givens", "rot", "shear", "unitary", "signs", "near"]


class Entry:
    def __init__(self, rep, dense, alg, tol, tabulated=False):
        self.rep, self.dense, self.alg, self.tol = rep, dense, alg, tol
        self.tabulated = tabulated  # made of tabulated irreps

    @property
    def dim(self):
        return self.dense[1].shape[1]


class Machine:
    """Applies operations to the library objects and to the dense model."""

    def __init__(self, cap, ctx):
        self.pool, self.cap, self.ctx = [], cap, ctx
        self.done = []
        self.observed = []

    def add(self, e, what):
        self.pool.append(e)
        self.done.append(what)

    def pick(self, i):
        return self.pool[-1 - i % len(self.pool)]  # 0 is the latest

    def start(self, d):
        rep = G.build(d)
        g = G.group_of(d)
        self.add(Entry(rep, G.dense(d), g, TOL.get(g, 1e-8) * 10, tabulated=d["t"] == "irrep"), "start")

    # -------------------------------------------------------------------- operations
    def op_sum(self, a, b, p):
        import lie_nn as lie

        if a.alg != b.alg or a.dim + b.dim > self.cap:
            return
        self.add(Entry(lie.direct_sum(a.rep, b.rep), O.d_sum([a.dense, b.dense]), a.alg, max(a.tol, b.tol)), "sum")

    def op_product(self, a, b, p):
        import lie_nn as lie

        if a.alg != b.alg or a.dim * b.dim > self.cap:
            return
        rep = lie.tensor_product(a.rep, b.rep)
        self.add(Entry(rep, O.d_tensor(a.dense, b.dense), a.alg, max(a.tol, b.tol) * 4), "product")

    def op_power(self, a, b, p):
        import lie_nn as lie

        n = p % 4
        if a.dim ** max(n, 1) > self.cap:
            return
        if "*" in a.alg:  # powers begin with the trivial representation (see op_trivial)
            try:
                a.rep.create_trivial()
            except NotImplementedError:
                return
        A, X, H = a.dense
        want = (A, np.zeros((len(X), 1, 1)), np.ones((len(H), 1, 1)))
        for _ in range(n):
            want = O.d_tensor(a.dense, want)
        self.add(Entry(lie.tensor_power(a.rep, n), want, a.alg, a.tol * 8), f"power {n}")

    def op_basis(self, a, b, p, q):
        import lie_nn as lie

        Q = G.build_q(q, a.dim)
        q0 = Q.copy()
        rep = lie.change_basis(a.rep, Q)
        require(np.array_equal(Q, q0), "the matrix given to change_basis was modified")
        self.add(Entry(rep, O.d_basis(a.dense, Q), a.alg, a.tol * 2), "basis")

    def op_algebra(self, a, b, p, q):
        import lie_nn as lie

        n = a.dense[0].shape[0]
        if n == 0:
            return
        Q = G.build_q(q, n)
        rep = lie.change_algebra(a.rep, Q)
        self.add(Entry(rep, O.d_algebra(a.dense, Q), [a.alg, "by", q], a.tol * 2), "algebra")

    def op_conjugate(self, a, b, p):
        import lie_nn as lie

        if np.iscomplexobj(a.dense[0]) and np.any(a.dense[0].imag):
            return
        self.add(Entry(lie.conjugate(a.rep), O.d_conj(a.dense), a.alg, a.tol), "conjugate")

    def op_trivial(self, a, b, p):
        A, X, H = a.dense
        try:
            rep = a.rep.create_trivial()
        except NotImplementedError:
            return
        self.add(Entry(rep, (A, np.zeros((len(X), 1, 1)), np.ones((len(H), 1, 1))), a.alg, a.tol), "trivial")

    def op_generic(self, a, b, p):
        import lie_nn as lie

        self.add(Entry(lie.GenericRep.from_rep(a.rep), a.dense, a.alg, a.tol), "generic")

    def op_group(self, a, b, p):
        import lie_nn as lie

        if a.dim * b.dim > self.cap or len(a.dense[0]) + len(b.dense[0]) > 9:
            return
        tab = isinstance(a.rep, lie.TabulatedIrrep) and isinstance(b.rep, lie.TabulatedIrrep)
        if tab:
            b = Entry(lie.GenericRep.from_rep(b.rep), b.dense, b.alg, b.tol)
        rep = lie.group_product(a.rep, b.rep)
        self.add(Entry(rep, O.d_product(a.dense, b.dense), [a.alg, "x", b.alg], max(a.tol, b.tol)), "group product")

    def op_reduce(self, a, b, p):
        import lie_nn as lie

        if a.dim > 8:
            return
        self.add(Entry(lie.reduce(a.rep), a.dense, a.alg, max(a.tol * 10, 1e-5)), "reduce")

    # -------------------------------------------------------------------- observations
    def op_element(self, a, b, p, al):
        """exp_map of an entry"""
        n, k = a.dense[0].shape[0], len(a.dense[2])
        v = np.resize(np.array(al, dtype=float), n) / (1 + a.dim / 4)
        ks = np.array([(p >> i) % 3 for i in range(k)], dtype=int)
        got = a.rep.exp_map(v, ks)
        want = O.d_exp(a.dense, v, ks)
        close(got, want, f"element of an entry made by {self.done}", a.tol * 100, mat_scale(want))

    def op_query(self, a, b, p):
        """predicates and a text form do not change anything"""
        a.rep.is_trivial(), repr(a.rep), a.rep.dim, a.rep.lie_dim
        a.rep.check_algebra_vs_generators(rtol=1e-3, atol=1e-3)

    def op_scribble(self, a, b, p):
        """Arrays returned for a label belong to the caller."""
        import lie_nn as lie

        if not isinstance(a.rep, lie.TabulatedIrrep):
            return
        for x in (a.rep.algebra(), a.rep.continuous_generators(), a.rep.discrete_generators()):
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x[...] = 17.0
        self.done.append("scribble")
        if a.dim <= 5 and isinstance(b.rep, type(a.rep)) and b.dim <= 5 and a.alg == b.alg:
            for c in list(a.rep * b.rep)[:2]:
                x = lie.clebsch_gordan(a.rep, b.rep, c)
                if x.flags.writeable:
                    x[...] = 23.0

    def op_square(self, a, b, p):
        """The symmetric and antisymmetric square of a label, twice, the caller overwriting the first answer"""
        import lie_nn as lie

        if not a.tabulated or a.dim > (3 if a.alg in ("SU4", "SO13") else 4) or a.dim == 1:
            return
        if not isinstance(a.rep, lie.TabulatedIrrep):
            return
        d = a.dim
        swap = np.einsum("il,jk->ijkl", np.eye(d), np.eye(d)).reshape(d * d, d * d)
        for _ in range(2):
            s = lie.reduced_tensor_product_basis("ij=ji", i=a.rep) if p % 2 else lie.reduced_symmetric_tensor_product_basis(a.rep, 2)
            t = lie.reduced_tensor_product_basis("ij=-ji", i=a.rep)
            for x, sign in ((s, 1), (t, -1)):
                M = np.array(x.array).reshape(d * d, -1)
                P = M @ np.linalg.pinv(M)
                close(P, (np.eye(d * d) + sign * swap) / 2, f"square of {a.rep} after {self.done}", 1e-5)
                for y in [x.array] + list(x.list):
                    if y.flags.writeable:
                        y[...] = 29.0
        self.done.append("square")

    def run(self, ops, observe):
        for op in ops:
            a, b = self.pick(op["i"]), self.pick(op["j"])
            extra = {k: op[k] for k in ("q", "al") if k in op}
            before = len(self.pool)
            np.random.seed(op["p"])
            getattr(self, "op_" + op["op"])(a, b, op["p"], **extra)
            if observe:
                new = self.pool[before:]
                for e in new:
                    O.same_dense(e.rep, e.dense, f"after {self.done}", e.tol)
                for e in (a, b):
                    O.same_dense(e.rep, e.dense, f"an operand of the last of {self.done + [op['op']]}", e.tol)


def check_history(case, ctx):
    m = Machine(case["cap"], ctx)
    for d in case["start"]:
        m.start(d)
    m.run(case["ops"], True)
    for i, e in enumerate(m.pool):
        O.same_dense(e.rep, e.dense, f"entry {i} at the end of {m.done}", e.tol)
    for x in sorted(set(m.done)):
        ctx.label(x)
    ctx.nontrivial(len(m.pool) - len(case["start"]) >= 3 and max(e.dim for e in m.pool) > 1)
    # the same history without looking at the intermediate results
    m2 = Machine(case["cap"], ctx)
    for d in case["start"]:
        m2.start(d)
    m2.run(case["ops"], False)
    require(len(m2.pool) == len(m.pool), "the history depends on the observations")
    for i in range(len(m2.pool) - 1, -1, -1):
        e = m2.pool[i]
        O.same_dense(e.rep, e.dense, f"entry {i} at the end of {m2.done}, unobserved", e.tol)


# ---------------------------------------------------------------------------- answers given twice


def arrays_of(x):
    """The arrays in an answer, however nested (representations: their matrices and change of basis)"""
    import lie_nn as lie

    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [y for e in x for y in arrays_of(e)]
    if isinstance(x, lie.Rep):
        Q = getattr(x, "Q", None)
        return ([] if Q is None else [Q]) + [x.algebra(), x.continuous_generators(), x.discrete_generators()]
    if hasattr(x, "array") and hasattr(x, "list"):
        return arrays_of(x.array) + arrays_of(list(x.list))
    return []


def ask(g, q):
    """One question with a determined answer: (what can be overwritten, what the answer says)"""
    import lie_nn as lie

    a, b, c = (G.mk(g, l) for l in q["l"])
    k = q["q"]
    if k == "gens":
        out = [a.algebra(), a.continuous_generators(), a.discrete_generators()]
    elif k == "props":
        out = [a.A, a.X, a.H]
    elif k == "cg":
        out = lie.clebsch_gordan(a, b, c)
    elif k == "method":
        out = a.clebsch_gordan(a, b, c)
    elif k == "paths":
        out = [lie.clebsch_gordan(a, b, x) for x in a * b]
    elif k == "generic_cg":
        # as a projection: the basis of solutions is not determined
        out = lie.clebsch_gordan(lie.GenericRep.from_rep(a), b, c)
        return arrays_of(out), [np.einsum("zijk,zlmn->ijklmn", out, np.conj(out))]
    elif k == "tp":
        out = lie.tensor_product(a, b)
    elif k == "mul":
        out = lie.tensor_product(lie.MulIrrep(2, a), b)
    elif k == "sum":
        out = lie.ReducedRep.from_irreps([(2, a), (1, b)])
    elif k == "direct_sum":
        out = lie.direct_sum(a, b)
    elif k == "power":
        out = lie.tensor_power(a, 2)
    elif k == "conjugate":
        out = lie.conjugate(a)
    elif k == "element":
        n, h = len(a.A), len(a.H)
        out = a.exp_map(np.arange(1.0, n + 1) / 8, np.ones(h, dtype=int))
    elif k == "basis":
        out = lie.change_basis(a, np.eye(a.dim) + np.eye(a.dim, k=1))
    elif k == "intertwiners":
        out = lie.infer_change_of_basis(lie.tensor_product(a, b), c)
        return arrays_of(out), [np.einsum("zij,zkl->ijkl", out, np.conj(out))]
    elif k == "trivial":
        out = a.create_trivial()
    elif k == "group":
        out = lie.group_product(a, lie.GenericRep.from_rep(b))
    elif k == "generic":
        out = lie.GenericRep.from_rep(a)
    else:
        raise KeyError(k)
    return arrays_of(out), [np.array(x) for x in arrays_of(out)]


QUESTIONS = ["gens", "props", "cg", "method", "paths", "generic_cg", "tp", "mul", "sum", "direct_sum", "power", "conjugate", "element", "basis", "intertwiners", "trivial", "group", "generic"]


def check_answers(case, ctx):
    """The same question has the same answer, whatever was asked in between and whatever the
    callers did to the arrays they were given."""
    g = case["g"]
    first = {}
    again = 0
    for i in case["order"]:
        q = case["qs"][i % len(case["qs"])]
        key = repr(q)
        mine, said = ask(g, q)
        if key in first:
            again += 1
            require(len(said) == len(first[key]), f"{q}: {len(said)} arrays, {len(first[key])} before")
            for x, y in zip(said, first[key]):
                require(x.shape == y.shape, f"{q}: shape {x.shape}, {y.shape} before")
                close(x, y, f"the answer to {q} has changed", 1e-9, mat_scale(y))
        else:
            first[key] = said
        if case["scribble"]:
            for x in mine:
                if x.flags.writeable:
                    x[...] = 3 * x + 1
    for x in sorted({q["q"] for q in case["qs"]}):
        ctx.label(x)
    ctx.nontrivial(again > 0 and any(O.label_dim(g, l) > 1 for q in case["qs"] for l in q["l"]))


@st.composite
def st_answers(draw, tier):
    g = draw(st.sampled_from(G.REPGROUPS))
    m = dict(SU4=4, SU3=3, SO13=4, SL2C=4).get(g, 5)
    labs = [draw(G.st_label(g, m).filter(lambda l: ok_su2real(dict(t="irrep", g=g, l=l)))) for _ in range(draw(st.integers(1, 2)))]
    qs = []
    # products of irreps do not provide a trivial representation
    questions = [q for q in QUESTIONS if q not in ("trivial", "power")] if "*" in g else QUESTIONS
    for _ in range(draw(st.integers(1, 4))):
        l1, l2 = draw(st.sampled_from(labs)), draw(st.sampled_from(labs))
        l3 = draw(st.sampled_from(sorted(list(l) for l in O.product(g, tuple(l1), tuple(l2)))))
        if O.label_dim(g, l1) * O.label_dim(g, l2) * O.label_dim(g, l3) > 130:
            l3 = l1
        qs.append(dict(q=draw(st.sampled_from(questions)), l=[l1, l2, l3]))
    n = len(qs)
    order = draw(st.permutations(list(range(n)) * 2))
    return dict(g=g, qs=qs, order=list(order), scribble=draw(st.sampled_from([True, True, False])))


def in_child(f):
    """f() in a process of its own, which has not asked anything yet"""
    import multiprocessing as mp

    r, w = mp.get_context("fork").Pipe(False)
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            r.close()
            try:
                out = (True, f())
            except Exception as e:
                out = (False, f"{type(e).__name__}: {e}")
            w.send(out)
        finally:
            os._exit(0)
    w.close()
    try:
        return r.recv()
    except EOFError:
        return (False, "the process died")
    finally:
        r.close()
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)


def ask_alone(e):
    try:
        if e["q"] == "rtp":
            import lie_nn as lie

            r = G.build(dict(t="red", r=[[1, dict(t="irrep", g=e["g"], l=l)] for l in e["l"][:2]], Q=None))
            out = lie.reduced_tensor_product_basis("ij=ji", i=r)
            M = out.array.reshape(-1, out.array.shape[-1])
            return [np.array([[m.mul, m.rep.dim] for m in out.rep.irreps]), M @ np.linalg.pinv(M)]
        if e["q"] == "list":
            a, b = (G.mk(e["g"], l) for l in e["l"][:2])
            return [repr(list(a * b)), repr(a), repr(sorted([a, b, a]))]
        return ask(e["g"], e)[1]
    except Exception as err:
        return [f"{type(err).__name__}"]


def check_orders(case, ctx):
    """The answers do not depend on the order of the questions: each history and its reverse, in two new processes."""
    es = case["es"]
    n = len(es)
    answers = []
    for order in (range(n), reversed(range(n))):
        order = list(order)
        ok, out = in_child(lambda: [(i, ask_alone(es[i])) for i in order])
        require(ok, f"history {order}: {out}")
        answers.append(dict(out))
    for i in range(n):
        x, y = answers[0][i], answers[1][i]
        require(len(x) == len(y), f"{es[i]}: a different number of answers, {x} and {y}"[:300])
        for u, v in zip(x, y):
            if isinstance(u, str) or isinstance(v, str):
                require(isinstance(u, str) and isinstance(v, str) and u == v, f"{es[i]} depends on what was asked before: {u} or {v}"[:400])
            else:
                require(u.shape == v.shape, f"{es[i]} depends on what was asked before: shapes {u.shape} and {v.shape}")
                close(u, v, f"{es[i]} depends on what was asked before", 1e-9, 1 + mat_scale(v))
    for e in es:
        ctx.label(e["g"])
    ctx.nontrivial(len({repr((e["g"], e["l"])) for e in es}) > 1)


def sweep_orders(tier):
    """Pairs of labels of the same dimension, and one label of every group after each other one."""
    out = []
    m = dict(SO13=9, SL2C=9, SU3=8, SU4=6)
    for g in G.ANY_GROUPS:
        labs = [list(l) for l in G.labels(g, m.get(g, 7)) if g != "SU2Real" or l[0] % 2 == 0]
        zero = labs[0]
        for i, a in enumerate(labs):
            for b in labs[i + 1:]:
                d = O.label_dim(g, a)
                if O.label_dim(g, b) != d:
                    continue
                for q in ("gens", "cg", "list"):
                    if q == "cg" and d > (6 if g in ("SU3", "SU4") else 9):
                        continue
                    out.append(dict(es=[dict(g=g, q=q, l=[a, zero, a]), dict(g=g, q=q, l=[b, zero, b])]))
                if d <= 4:
                    out.append(dict(es=[dict(g=g, q=q, l=[x, y, x]) for x, y in ((a, b), (b, a), (a, a)) for q in ("tp", "list")]))
        # consecutive ones
        for a, b in zip(labs, labs[1:]):
            if O.label_dim(g, a) * O.label_dim(g, b) <= 24:
                out.append(dict(es=[dict(g=g, q=q, l=[x, y, x]) for x, y in ((a, b), (b, a)) for q in ("gens", "tp", "paths")]))
    # the same label numbers in all the families
    for l in range(1, 4):
        es = []
        for g in ("SO3", "SU2", "SU2Real", "O3", "SU2_"):
            lab = {"O3": [l, -1], "SU2_": [l, 0], "SU2Real": [2 * l]}.get(g, [l])
            triv = {"O3": [0, 1], "SU2_": [0, 0]}.get(g, [0])
            es += [dict(g=g, q=q, l=[lab, lab, triv]) for q in ("gens", "cg", "list")]
        out.append(dict(es=es))
        out.append(dict(es=es[::2] + es[1::2]))
        es = [dict(g=g, q=q, l=[[l, k], [k, l], [0, 0]]) for g in ("SL2C", "SO13") for k in (l, l + 2) for q in ("gens", "list") if (l + 1) * (k + 1) <= 12]
        out.append(dict(es=es))
    return out


@st.composite
def st_orders(draw, tier):
    gs = draw(st.lists(st.sampled_from(G.REPGROUPS), min_size=1, max_size=2))
    es = []
    for _ in range(draw(st.integers(2, 6))):
        g = draw(st.sampled_from(gs))
        m = dict(SU4=4, SU3=3, SO13=4, SL2C=4).get(g, 5)
        lab = G.st_label(g, m).filter(lambda l: ok_su2real(dict(t="irrep", g=g, l=l)))
        l1, l2 = draw(lab), draw(lab)
        l3 = draw(st.sampled_from(sorted(list(l) for l in O.product(g, tuple(l1), tuple(l2)))))
        if O.label_dim(g, l1) * O.label_dim(g, l2) * O.label_dim(g, l3) > 130:
            l3 = l1
        questions = [q for q in QUESTIONS + ["list", "list", "rtp"] if not ("*" in g and q in ("trivial", "power")) and not (q == "rtp" and g not in ("SO3", "O3", "SU2", "Z2", "SU3"))]
        es.append(dict(g=g, q=draw(st.sampled_from(questions)), l=[l1, l2, l3]))
    return dict(es=es)


OPS = ["sum", "product", "power", "basis", "basis", "algebra", "conjugate", "trivial", "generic", "group", "reduce", "element", "query", "scribble", "square"]


@st.composite
def st_history(draw, tier):
    cap = 12 if tier == "quick" else 20
    n0 = draw(st.integers(1, 3))
    pick = draw(st.integers(0, 7))
    if pick == 0:
        fg = draw(st.sampled_from(G.FIN))
        start = [draw(G.st_fin(maxdim=4, groups=(fg,), shapes=G.ALL_SHAPES)) for _ in range(n0)]
    else:
        g = draw(st.sampled_from([g for g in G.REPGROUPS if g not in ("SU4",)] + (["SU4"] if tier != "quick" else [])))
        start = [draw(rep_of(g, dict(SU3=6, SO13=4, SU4=6).get(g, 5), kinds=KINDS)) for _ in range(n0)]
        start = [d if ok_su2real(d) else dict(t="gen", r=red_of(d), Q=dict(k="id", s=0)) for d in start]
    recent = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 6, 9, 13])
    ops = []
    for _ in range(draw(st.integers(2, 10 if tier == "quick" else 24))):
        o = draw(st.sampled_from(OPS))
        d = dict(op=o, i=draw(recent), j=draw(recent), p=draw(st.integers(0, 7)))
        if o in ("basis", "algebra"):
            d["q"] = draw(G.st_q(KINDS if o == "basis" else ["id", "perm", "diag", "givens", "rot", "shear"]))
        if o == "element":
            d["al"] = draw(G.st_alg(5, small=True))
        ops.append(d)
    return dict(cap=cap, start=start, ops=ops)


def red_of(d):
    """the same content as a sum of irreps, for use as generic representation"""
    t = d["t"]
    if t == "irrep":
        return dict(t="red", r=[[1, d]], Q=None)
    if t == "mul":
        return dict(t="red", r=[[d["m"], d["r"]]], Q=None)
    return dict(d, Q=None)


def components(tier):
    return [
        Component("answers", check_answers, "a question asked again about a label of dimension above one", strategy=st_answers, n=dict(quick=2000, thorough=8000)),
        Component("orders of labels", check_orders, "questions about different labels", sweep=sweep_orders),
        Component("orders", check_orders, "questions about different labels", strategy=st_orders, n=dict(quick=1200, thorough=8000), shards=8),
        Component("histories", check_history, "at least three new entries and a dimension above one", strategy=st_history, n=dict(quick=3000, thorough=20000)),
    ]
