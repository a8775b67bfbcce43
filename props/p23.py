"""Rational arithmetic behind the exact looking coefficients."""
from .common import *
from fractions import Fraction
import math

ASSUMPTIONS = ["|x| < 4e7 for the rounding to square roots (the library asserts that x^2 fits)"]


def check_ratio(case, ctx):
    import lie_nn as lie

    xs = np.array(case["x"], dtype=np.float64)
    if case["shape"] and len(xs) % 2 == 0:
        xs = xs.reshape(2, -1)
    x0 = xs.copy()
    n, d = lie.util.as_approx_integer_ratio(xs)
    require(np.array_equal(xs, x0), "argument modified")
    n, d = np.asarray(n), np.asarray(d)
    require(n.shape == xs.shape and d.shape == xs.shape, "shape")
    ctx.nontrivial(np.any(xs != np.round(xs)))
    for x, p, q in zip(xs.ravel().tolist(), n.ravel().tolist(), d.ravel().tolist()):
        require(p == int(p) and q == int(q) and q > 0, f"{p}/{q}")
        require(math.gcd(int(p), int(q)) == 1, f"{x!r}: {p}/{q} is not reduced")
        fr = Fraction(int(p), int(q))
        ex = Fraction(x)
        if x == 0:
            require(p == 0 and q == 1, "zero")
            continue
        # relative error; very small or large numbers have few significant bits left
        a = abs(ex)
        eps = Fraction(1, 2**49) * max(a, 1 / a)
        require(abs(fr - ex) <= eps * a, f"{x!r} -> {p}/{q}: relative error {float(abs(fr - ex) / a):.3g}")
        if x == round(x) and abs(x) < 1e6 or (1 / x == round(1 / x) and abs(x) > 1e-6 and math.log2(abs(x)).is_integer()):
            require(fr == ex, f"{x!r} -> {p}/{q}")


floats = st.one_of(
    st.builds(lambda p, q: p / q, st.integers(-4000, 4000), st.integers(1, 4000)),
    st.floats(-1e3, 1e3).filter(lambda x: x == 0 or abs(x) > 1e-6),
    st.integers(-(10**5), 10**5).map(float),
    st.builds(lambda m, e: m * 2.0**e, st.sampled_from([-1.0, 1.0, 3.0]), st.integers(-20, 20)),
)


@st.composite
def st_ratio(draw, tier):
    return dict(x=draw(st.lists(floats, min_size=1, max_size=8)), shape=draw(st.booleans()))


def check_limit(case, ctx):
    import lie_nn as lie

    frs = [Fraction(p, q) for p, q in case["f"]]
    n = np.array([x.numerator for x in frs])
    d = np.array([x.denominator for x in frs])
    n0, d0 = n.copy(), d.copy()
    m = case["m"]
    p, q = lie.util.limit_denominator(n, d, m)
    require(np.array_equal(n, n0) and np.array_equal(d, d0), "argument modified")
    ctx.nontrivial(any(x.denominator > m for x in frs))
    for x, a, b in zip(frs, np.asarray(p).tolist(), np.asarray(q).tolist()):
        require(1 <= b <= m, f"{x}: denominator {b} for a limit of {m}")
        y, w = Fraction(a, b), x.limit_denominator(m)
        require(abs(x - y) == abs(x - w), f"{x} with limit {m}: got {y}, the closest is {w}")
        require(math.gcd(a, b) == 1, f"{a}/{b} is not reduced")
    # one number at a time
    a, b = lie.util.limit_denominator(n[0], d[0], m)
    require(int(a) == int(p[0]) and int(b) == int(q[0]), "array and scalar differ")
    if m == 1_000_000:
        a, b = lie.util.limit_denominator(n, d)
        require(np.array_equal(a, p) and np.array_equal(b, q), "default limit")


@st.composite
def st_limit(draw, tier):
    m = draw(st.one_of(st.integers(1, 60), st.sampled_from([4096, 10**6, 4096**2 + 1]), st.integers(1, 10**6)))
    big = draw(st.sampled_from([50, 10**4, 10**9, 2**40]))
    fr = st.tuples(st.integers(-big, big), st.integers(1, big)).map(list)
    near = st.integers(max(1, m - 2), m + 2).flatmap(lambda q: st.tuples(st.integers(-3 * q, 3 * q), st.just(q)).map(list))
    # long continued fractions, as those close to the golden ratio
    long = st.tuples(st.integers(-2, 2), st.lists(st.sampled_from([1, 1, 1, 1, 2]), min_size=20, max_size=70)).map(continued)
    which = draw(st.sampled_from([fr, near, st.one_of(fr, near), long]))
    if which is long:
        m = draw(st.sampled_from([m, 10**6, 10**9, 2**31, 10**12]))
    return dict(f=draw(st.lists(which, min_size=1, max_size=6)), m=m)


def continued(x):
    """a + 1/(q1 + 1/(q2 + ...)), cut where the numbers get large"""
    a, qs = x
    p0, q0, p, q = 1, 0, a, 1
    for k in qs:
        if max(abs(p), q) > 2**50:
            break
        p0, q0, p, q = p, q, k * p + p0, k * q + q0
    return [p, q]


def sweep_limit(tier):
    """all fractions p/q of [-1, 2) with q <= 12, all limits"""
    out = []
    for m in range(1, 14):
        f = [[p, q] for q in range(1, 14) for p in range(-q, 2 * q) if math.gcd(p, q) == 1]
        for i in range(0, len(f), 40):
            out.append(dict(f=f[i : i + 40], m=m))
    return out


def check_sqrt(case, ctx):
    """sign * sqrt(p / q) is a fixed point; anything is moved by less than the resolution."""
    import lie_nn as lie

    rt = lie.util.round_to_sqrt_rational
    m = case["m"]
    xs, exact = [], []
    for kind, a, b in case["v"]:
        if kind == "sqrt":
            xs.append(np.sign(a) * math.sqrt(abs(a) / b))
            exact.append(b <= m * m)
        else:
            xs.append(a / b)
            exact.append(False)
    x = np.array(xs)
    noise = np.array([case["noise"] * (1 if i % 2 else -1) for i in range(len(x))]) * np.maximum(np.abs(x), 0)
    ctx.nontrivial(any(e and v != round(v) for v, e in zip(x, exact)))
    kw = {} if m == 4096 and case["s"] % 2 else dict(max_denominator=m)
    if case["c"]:
        z = x + 1j * np.roll(x, 1)
        zn = x + noise + 1j * np.roll(x + noise, 1)
        y = rt(zn, **kw)
        if np.any(np.iscomplex(zn)):
            require(np.iscomplexobj(y), "imaginary part lost")
        y = np.asarray(y, dtype=complex)
        pairs = [(y.real, z.real, exact), (y.imag, z.imag, list(np.roll(exact, 1)))]
    else:
        y = rt(x + noise, **kw)
        require(not np.iscomplexobj(y), "complex result")
        pairs = [(y, x, exact)]
    require(np.shape(y) == x.shape, "shape")
    for got, want, ex in pairs:
        for g, w, e in zip(np.ravel(got).tolist(), np.ravel(want).tolist(), ex):
            if e:
                require(abs(g - w) <= 4e-15 * max(1, abs(w)), f"sqrt of a rational {w!r} became {g!r}")
            require(g * w >= 0, f"sign of {w!r} lost: {g!r}")
            # x^2 moves by at most 1/(2 max) where max = m^2
            require(abs(g * g - w * w) <= 1.01 / (m * m) + 1e-9 * max(1, w * w), f"{w!r} was moved to {g!r}")
    # idempotent, element by element, shape independent
    again = rt(y, **kw)
    close(again, y, "idempotent", 1e-12)
    one = np.array([rt(np.array(v), **kw) for v in np.ravel(x + noise)])
    if not case["c"]:
        require(np.array_equal(one, np.ravel(y)), "element by element")
        require(np.array_equal(-rt(-(x + noise), **kw), y), "odd function")
        require(np.array_equal(rt((x + noise).reshape(1, -1, 1), **kw).ravel(), y), "shape")
    require(rt(np.zeros((0, 3))).shape == (0, 3), "empty array")


@st.composite
def st_sqrt(draw, tier):
    m = draw(st.sampled_from([4096, 4096, 64, 100, 1000]))
    v = st.one_of(
        st.tuples(st.just("sqrt"), st.integers(-200, 200), st.integers(1, 400)),
        st.tuples(st.just("sqrt"), st.integers(-(10**5), 10**5), st.integers(1, 10**4)),
        st.tuples(st.just("rat"), st.integers(-50, 50), st.integers(1, 50)),
        st.tuples(st.just("rat"), st.integers(-(10**6), 10**6), st.integers(1, 10**6)),
    )
    vs = draw(st.lists(v.map(list), min_size=1, max_size=6))
    small = all(b <= 400 and abs(a) <= 200 for _, a, b in vs) and m >= 1000
    noise = draw(st.sampled_from([0.0, 0.0, 1e-14])) if small else 0.0
    return dict(v=vs, m=m, noise=noise, c=draw(st.booleans()), s=draw(st.integers(0, 1)))


def check_sympy(case, ctx):
    import lie_nn as lie
    import sympy as sp

    (_, a, b), (_, c, d) = case["x"], case["y"]
    x = np.sign(a) * math.sqrt(abs(a) / b)
    y = np.sign(c) * math.sqrt(abs(c) / d)
    ctx.nontrivial(a != 0 and c != 0)
    z = lie.util.round_to_sqrt_rational_sympy(x + 1j * y, 4096)
    want = lie.util.round_to_sqrt_rational(np.array(x + 1j * y))
    got = complex(z)
    require(abs(got - complex(want)) < 1e-12 * max(1, abs(got)), f"{z} and {want}")
    require(abs(got - (x + 1j * y)) < 1e-9 * max(1, abs(got)), f"{z} for {x + 1j * y}")
    re = sp.re(sp.expand(z)) if y else z
    del re


@st.composite
def st_sympy(draw, tier):
    v = st.tuples(st.just("sqrt"), st.integers(-60, 60), st.integers(1, 90)).map(list)
    return dict(x=draw(v), y=draw(v))


def components(tier):
    return [
        Component("ratio", check_ratio, "a number that is no integer", strategy=st_ratio, n=dict(quick=12000, thorough=40000), shards=16),
        Component("limit", check_limit, "a denominator above the limit", strategy=st_limit, n=dict(quick=15000, thorough=60000), shards=16),
        Component("small fractions", check_limit, "a denominator above the limit", sweep=sweep_limit),
        Component("rounding", check_sqrt, "an irrational square root of a rational", strategy=st_sqrt, n=dict(quick=12000, thorough=40000), shards=16),
        Component("symbolic", check_sympy, "a complex number", strategy=st_sympy, n=dict(quick=600, thorough=1000), shards=8),
    ]
