"""C13: sparsification keeps the right elements, in the right number, rescaled right."""
import math

import torch
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import DTYPES, describe, make, prod, rng, seeds, shapes
from vp.refs import EPS

PROPERTY = "C13"
LEVEL = "sampling"
TECHNIQUE = ("property-based testing: generated tensors (ties, zeros, layouts, dtypes) against a set-valued reference of the kept "
             "elements, with binomial tests of the randomized methods")
ASSUMPTIONS = [
    "among elements of equal magnitude at the cut any choice is accepted",
    "a density that would keep no element under magnitude pruning is refused by design and not generated",
    "statistical tests use bounds of 7 standard deviations",
    "magnitude-adaptive pruning ranks rows of matrices and whole vectors; for higher-dimensional tensors only the probability range is checked",
]
dts = st.sampled_from(["float32", "float32", "bfloat16", "float16", "float64"])
layouts = st.sampled_from(["plain", "plain", "plain", "transposed", "sliced", "expanded"])
dens = st.one_of(st.sampled_from([0.0, 0.01, 0.1, 0.25, 0.29, 1 / 3, 0.5, 0.57, 0.7, 0.9, 0.99, 1.0]), st.floats(0, 1, width=32))


def lay(t, how):
    """The same values in another memory layout."""
    if how == "transposed" and t.dim() >= 2:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "sliced":
        big = torch.full([s + 1 for s in t.shape], 9.0, dtype=t.dtype)
        v = big[tuple(slice(0, s) for s in t.shape)]
        v.copy_(t)
        return v
    if how == "expanded" and t.shape[0] > 1:
        return t[:1].clone().expand_as(t)
    return t


def call(t, density, method, gamma=None, epsilon=None, rescale=None):
    from mergekit.sparsify import RescaleNorm, SparsificationMethod, sparsify

    kw = {}
    if gamma is not None:
        kw["gamma"] = gamma
    if epsilon is not None:
        kw["epsilon"] = epsilon
    before = t.clone()
    r = sparsify(t, density=density, method=SparsificationMethod(method), rescale_norm=RescaleNorm(rescale) if rescale else None, **kw)
    require(isinstance(r, torch.Tensor) and r.shape == t.shape and r.dtype == t.dtype, "%s: %s became %s", method, describe(t), describe(r))
    require(bool(torch.equal(t, before)), "%s changed its input", method)
    require(bool(torch.isfinite(r).all()), "%s(density=%s, rescale=%s) of a finite %s is not finite", method, density, rescale, describe(t))
    return r


def norm_of(x, which):
    x = x.double().reshape(-1)
    return {"l1": lambda: x.abs().sum(), "l2": lambda: x.norm(), "linf": lambda: x.abs().max()}[which]()


def unscale(t, r, rescale, what):
    """Check that r is t with some elements zeroed and one common factor; return the surviving elements' values."""
    x, y = t.double(), r.double()
    live = y != 0
    require(not bool((live & (x == 0)).any()), "%s: a zero became non-zero", what)
    c = 1.0
    e = EPS[t.dtype]
    if rescale and bool(live.any()):
        c = float((y[live].abs().sum()) / (x[live].abs().sum()))
        b, a = float(norm_of(t, rescale)), float(norm_of(x * live, rescale))
        # an underflow of a tiny element may hide it; norms below the guard are left alone
        if b >= 2e-7 and a >= 2e-7:
            require(abs(c * a - b) <= 16 * max(e, 2.0**-23) * b, "%s: %s norm was %g, is %g after rescaling", what, rescale, b, c * a)
        elif b < 5e-8 or a < 5e-8:
            require(abs(c - 1) <= 16 * e, "%s: tiny tensor rescaled by %g", what, c)
    tol = 16 * max(e, 2.0**-23 if rescale else 0) * (c * x.abs()) + (1e-7 * (1 + c) if t.dtype == torch.float16 else 0)
    if not rescale:
        tol = torch.zeros_like(x) if t.dtype != torch.float64 else 2.0**-23 * x.abs()
    require(bool(((y - c * x).abs()[live] <= tol[live]).all()), "%s: kept elements do not share one factor: %s from %s", what, describe(r), describe(t))
    return x[live]


@st.composite
def det(draw):
    m = draw(st.sampled_from(["magnitude", "magnitude_outliers"]))
    return {"method": m, "shape": draw(shapes(1, 3, 9)), "dtype": draw(dts), "kind": draw(st.sampled_from(["normal", "normal", "ties", "ints", "sparse", "wide", "tiny", "zeros"])),
            "seed": draw(seeds), "layout": draw(layouts), "density": draw(dens),
            "gamma": draw(st.one_of(st.none(), st.sampled_from([0.0, 0.01, 0.1, 0.25, 0.5, 0.9, 1.0]), st.floats(0, 1, width=32))) if m != "magnitude" else None,
            "rescale": draw(st.sampled_from([None, None, "l1", "l2", "linf"])),
            "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 300.0]))}


def near_ints(x):
    return sorted({math.floor(x), math.ceil(x)})


def deterministic(case, ctx):
    t = make(case["shape"], case["seed"], case["kind"], torch.float64, case["scale"]).to(DTYPES[case["dtype"]])
    t = lay(t, case["layout"])
    n, d = t.numel(), case["density"]
    top = float(t.double().abs().max())
    if not math.isfinite(top) or (case["dtype"] == "float16" and case["rescale"] and case["kind"] == "wide"):
        raise Rejected()  # the rescaled values may not be representable
    if case["dtype"] == "float16" and case["rescale"] and top * n > 60000:
        raise Rejected()
    m = case["method"]
    if m == "magnitude" and d < 1 and int(d * n) < 1:
        raise Rejected()
    r = call(t, d, m, gamma=case["gamma"], rescale=case["rescale"])
    ctx.label(m, case["kind"], case["layout"], case["dtype"], "rescale" if case["rescale"] else "plain")
    ctx.interesting(0 < d < 1 and n >= 3)
    if d >= 1:
        require(bool((r == t).all()), "density 1 changed the tensor: %s from %s", describe(r), describe(t))
        return
    got = sorted(unscale(t, r, case["rescale"], m).abs().tolist())
    asc = sorted(t.double().abs().reshape(-1).tolist())
    gamma = case["gamma"] or 0.0
    sets = []
    for k in near_ints(d * n):
        for top in near_ints(gamma * n) if m == "magnitude_outliers" else [0]:
            top = min(top, n - k)
            bot = n - k - top
            sets.append([v for v in asc[bot:n - top] if v != 0])
    tiny = 1e-6 if case["dtype"] == "float16" and case["rescale"] else 0.0

    def eq(a, b):
        if a == b:
            return True
        # rescaling can flush the smallest half-precision values to zero
        a2, b2 = [v for v in a if v > tiny], [v for v in b if v > tiny]
        return tiny > 0 and a2 == b2

    require(any(eq(got, s) for s in sets), "%s(density=%s, gamma=%s) of %s kept %s, expected magnitudes %s", m, d, case["gamma"],
            [round(v, 5) for v in asc], [round(v, 5) for v in got], [[round(v, 5) for v in s] for s in sets])


@st.composite
def rand(draw):
    m = draw(st.sampled_from(["random", "della_magprune"]))
    d = draw(dens)
    return {"method": m, "shape": draw(shapes(1, 3, 8)), "dtype": draw(dts), "kind": draw(st.sampled_from(["normal", "ties", "ints", "zeros", "wide"])),
            "seed": draw(seeds), "layout": draw(layouts), "density": d, "rescale": draw(st.sampled_from([None, "l1", "l2", "linf"])),
            "epsilon": draw(st.one_of(st.sampled_from([0.0, 0.05, 0.1, 0.3, 0.6]), st.floats(0, 1, width=32))), "rng": draw(seeds)}


def randomized(case, ctx):
    t = lay(make(case["shape"], case["seed"], case["kind"], DTYPES[case["dtype"]]), case["layout"])
    d, e = case["density"], case["epsilon"]
    m = case["method"]
    bad = m == "della_magprune" and 0 < d < 1 and (d + e >= 1 or d - e <= 0)
    torch.manual_seed(case["rng"])
    ctx.label(m, case["dtype"], "bad-epsilon" if bad else "ok")
    ctx.interesting(0 < d < 1)
    if bad:
        try:
            call(t, d, m, epsilon=e, rescale=case["rescale"])
        except (ValueError, RuntimeError):
            return
        require(False, "density %s with epsilon %s leaves (0,1) but was accepted", d, e)
    r = call(t, d, m, epsilon=e if m != "random" else None, rescale=case["rescale"])
    if d >= 1:
        require(bool((r == t).all()), "density 1 changed the tensor")
        return
    if d <= 0:
        require(not bool((r != 0).any()), "density 0 kept elements: %s", describe(r))
        return
    unscale(t, r, case["rescale"], m)
    torch.manual_seed(case["rng"])
    r2 = call(t, d, m, epsilon=e if m != "random" else None, rescale=case["rescale"])
    require(bool(torch.equal(r, r2)), "%s is not determined by the random seed", m)


@st.composite
def big(draw):
    m = draw(st.sampled_from(["random", "della_magprune"]))
    d = draw(st.sampled_from([0.1, 0.25, 0.5, 0.63, 0.9]))
    return {"method": m, "density": d, "epsilon": draw(st.sampled_from([0.0, 0.02, 0.05, 0.09])) if d in (0.1, 0.9) else draw(st.sampled_from([0.0, 0.1, 0.2, 0.24])),
            "rows": draw(st.sampled_from([0, 1, 10, 200, 2000])), "seed": draw(seeds), "dtype": draw(st.sampled_from(["float32", "float16", "bfloat16", "float64"])),
            "rescale": draw(st.sampled_from([None, "l1"]))}


def probabilities(case, ctx):
    n, dt = 10000, DTYPES[case["dtype"]]
    rows = max(case["rows"], 1)
    cols = n // rows
    # bfloat16 cannot hold distinct magnitudes for long rows: ranks then follow an arbitrary order among equals
    g = rng(case["seed"])
    mag = torch.stack([torch.randperm(cols, generator=g) for _ in range(rows)]).double() + 1
    sign = torch.randint(0, 2, (rows, cols), generator=g).double() * 2 - 1
    scale = 2.0 ** torch.randint(-3, 4, (rows, 1), generator=g).double()  # rows of different size
    vals = mag / 64
    x = (vals * sign * scale).to(dt)
    t = x.reshape(-1) if case["rows"] == 0 else x
    if dt == torch.float16 and float(x.double().abs().max()) > 60000:
        raise Rejected()
    torch.manual_seed(case["seed"] + 1)
    d, e = case["density"], case["epsilon"]
    r = call(t, d, case["method"], epsilon=e if case["method"] != "random" else None, rescale=case["rescale"])
    unscale(t, r, case["rescale"], case["method"])
    k = (r != 0).double().reshape(rows, cols)
    ctx.label(case["method"], f"rows={case['rows']}", case["dtype"])
    ctx.interesting()
    slack = 0.0
    if case["method"] == "random":
        p = torch.full_like(k, d)
    else:
        p = (d - e) + 2 * e * (mag - 1) / max(cols - 1, 1) if cols > 1 else torch.full_like(k, d)
    if dt == torch.bfloat16:
        slack = 0.006
    coarse = dt in (torch.bfloat16, torch.float16)
    idx = torch.arange(n).reshape(rows, cols)
    groups = {"all": k >= 0, "even": idx % 2 == 0, "first half": idx < n // 2, "positive": sign > 0, "large rows": (scale >= 1).expand_as(mag)}
    for f in (0.1, 0.25, 0.5, 0.75, 0.9):
        groups[f"rank<={f}"] = mag <= f * cols
    if not coarse or cols <= 200:
        groups["smallest"] = mag == 1
        groups["largest"] = mag == cols
    for name, sel in groups.items():
        sel = sel.double()
        cnt = float(sel.sum())
        mean = float((p * sel).sum())
        sd = float((p * (1 - p) * sel).sum()) ** 0.5
        # ranks among equal (rounded) magnitudes near a group's border are arbitrary
        border = (0.02 * cnt * 2 * e) if coarse else 0.0
        got = float((k * sel).sum())
        require(abs(got - mean) <= 7 * sd + 3 + slack * cnt + border, "%s density %g epsilon %g: %d of %d elements kept in group %r, expected %.1f (sd %.1f)",
                case["method"], d, e, int(got), int(cnt), name, mean, sd)
    # neighbours are kept independently of each other (within rows and across them)
    if e == 0 or case["method"] == "random":
        flat = k.reshape(-1)
        for lag in (1, cols if rows > 1 else 7):
            both = float((flat[:-lag] * flat[lag:]).sum())
            q = d * d
            m = n - lag
            require(abs(both - q * m) <= 7 * (q * (1 - q) * m * 2) ** 0.5 + 3 + 2 * slack * m, "%s: elements %d apart are kept together %d times, expected %.0f",
                    case["method"], lag, int(both), q * m)


@st.composite
def large(draw):
    return {"method": draw(st.sampled_from(["magnitude", "magnitude_outliers", "random", "della_magprune"])), "dtype": draw(st.sampled_from(["float16", "bfloat16", "float32"])),
            "n": draw(st.sampled_from([100, 3000, 50000])), "scale": draw(st.sampled_from([0.01, 1.0, 50.0, 500.0])), "rescale": draw(st.sampled_from(["l1", "l2", "linf"])), "seed": draw(seeds),
            "density": draw(st.sampled_from([0.2, 0.5, 0.9]))}


def large_norms(case, ctx):
    """Norms beyond the range of the element type must not disturb the rescaling."""
    dt = DTYPES[case["dtype"]]
    t = make([case["n"]], case["seed"], "normal", torch.float64, case["scale"]).to(dt)
    torch.manual_seed(case["seed"])
    m = case["method"]
    # the rescaled values themselves stay representable
    if case["rescale"] != "linf" and float(t.double().abs().max()) * 8 > 60000:
        raise Rejected()
    r = call(t, case["density"], m, gamma=0.05 if m == "magnitude_outliers" else None, epsilon=0.05 if m == "della_magprune" else None, rescale=case["rescale"])
    l1 = float(t.double().abs().sum())
    ctx.label(m, "beyond-float16" if l1 > 65504 else "small")
    ctx.interesting(l1 > 65504 and dt == torch.float16)
    unscale(t, r, case["rescale"], m)


TESTS = [
    Test("deterministic", det, deterministic, quick=8000, thorough=200000, shards=5, budget=60, rule="at least three elements and a density strictly between 0 and 1"),
    Test("randomized", rand, randomized, quick=4000, thorough=100000, shards=3, budget=60, rule="a density strictly between 0 and 1"),
    Test("probabilities", big, probabilities, quick=240, thorough=6000, shards=4, budget=60, rule="10000 elements; kept counts by magnitude rank, position, sign and row"),
    Test("large_norms", large, large_norms, quick=400, thorough=8000, shards=2, budget=40, rule="an l1 norm beyond the range of float16"),
]
