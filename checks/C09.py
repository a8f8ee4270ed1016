"""C09: averaging and task-vector merges compute their documented formulas."""
import itertools

import torch
from hypothesis import strategies as st

from vp import e2e, refs
from vp.core import Rejected, Test, require
from vp.gen import DTYPES, KINDS, describe, make, prod, rng, seeds, shapes, unit
from vp.methods import run_method

PROPERTY = "C09"
LEVEL = "sampling"
TECHNIQUE = ("property-based testing: generated tensors and parameters against independent float64 reference formulas; "
             "for randomized pruning, exhaustive search over the possible masks of small tensors and binomial tests on large ones")
ASSUMPTIONS = [
    "where the weighted differences cancel to within rounding, either elected sign is accepted",
    "averages whose weights sum to (nearly) zero under normalization are undefined and not generated",
    "statistical tests use bounds of 7 standard deviations (false alarm odds below 1e-10 per test)",
]

# documented behaviour of each method: sign consensus, pruning, default normalize, default rescale
GTA = {
    "task_arithmetic": (False, None, False, False),
    "ties": (True, "magnitude", True, False),
    "dare_ties": (True, "random", False, True),
    "dare_linear": (False, "random", False, True),
    "breadcrumbs": (False, "outliers", False, False),
    "breadcrumbs_ties": (True, "outliers", False, False),
    "della": (True, "della", True, True),
    "della_linear": (False, "della", False, True),
}

dyadic = st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, -0.5, -1.0, 3.0])
posw = st.one_of(st.sampled_from([0.25, 0.5, 1.0, 2.0, 10.0]), st.sampled_from([1.0, 0.5, 2**-9, 2**-8]), st.floats(0.015625, 5, allow_nan=False, width=32))
dts = st.sampled_from(["float32", "float32", "float32", "bfloat16", "float16"])


def usable(dt, ws):
    """Small weights leave half precision its subnormals only."""
    return [0.25 if dt == "float16" and 0 < w < 0.25 else w for w in ws]


def near(out, cands, scale, ok, dtype, what, k=16):
    """out equals one of the candidates at every well-conditioned element."""
    require(isinstance(out, torch.Tensor) and out.shape == cands[0].shape, "%s: result is %s, expected shape %s", what,
            describe(out), tuple(cands[0].shape))
    tol = k * refs.EPS[dtype] * scale + 1e-30
    if dtype == torch.float16:
        tol = tol + 1e-6
    bad = ok.clone()
    for c in cands:
        bad &= ~((out.double() - c).abs() <= tol)
    if bool(bad.any()):
        i = torch.nonzero(bad)[0].tolist()
        require(False, "%s: element %s is %r, expected %s (tolerance %g)", what, i, float(out[tuple(i)]),
                [float(c[tuple(i)]) for c in cands], float(tol[tuple(i)]))


# ---------------------------------------------------------------- linear
@st.composite
def lin(draw):
    n = draw(st.integers(1, 5))
    dt = draw(dts)
    return {"shape": draw(shapes(1, 3, 6)), "dtype": dt, "normalize": draw(st.sampled_from([None, True, False])),
            "ws": usable(dt, draw(st.lists(st.one_of(posw, dyadic), min_size=n, max_size=n))), "seed": draw(seeds),
            "kind": draw(st.sampled_from(KINDS)), "base": draw(st.one_of(st.none(), st.integers(0, n - 1))),
            "embed": draw(st.booleans()), "extra": draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2)), min_size=n, max_size=n))}


def linear(case, ctx):
    dt = DTYPES[case["dtype"]]
    norm = True if case["normalize"] is None else case["normalize"]
    ws = case["ws"]
    if norm and abs(sum(ws)) < 0.05 * sum(map(abs, ws)) + 1e-6:
        raise Rejected()
    shape = case["shape"]
    big = case["embed"] and len(shape) == 2
    xs = []
    for i in range(len(ws)):
        s = [a + b for a, b in zip(shape, case["extra"][i])] if big else shape
        xs.append(make(s, case["seed"] + i, case["kind"], dt))
    params = {} if case["normalize"] is None else {"normalize": case["normalize"]}
    out = run_method("linear", [x.clone() for x in xs], case["base"], params, [{"weight": w} for w in ws], embed=case["embed"])
    if big:
        lim = [min(x.shape[0] for x in xs), min(x.shape[1] for x in xs)]
        xs = [x[:lim[0], :lim[1]] for x in xs]
    ref, scale = refs.linear([x.double() for x in xs], ws, norm)
    # weights are rounded to the tensor type: relative error eps per weight, amplified by cancellation in the divisor
    if norm:
        scale = scale + ref.abs() * (sum(map(abs, ws)) / abs(sum(ws)))
    ctx.label(f"n={len(ws)}", case["dtype"], "normalize" if norm else "raw", "embed" if big else "plain")
    ctx.interesting(len(ws) >= 2 and len(set(ws)) > 1)
    near(out, [ref], scale, torch.ones_like(ref, dtype=torch.bool), dt, "linear")
    require(out.dtype == dt, "linear of %s tensors returned %s", dt, out.dtype)


# ---------------------------------------------------------------- deterministic task-vector merges
def distinct(shape, seed, dtype):
    """Integer changes with pairwise different magnitudes, exactly representable."""
    n = prod(shape)
    g = rng(seed)
    v = torch.randperm(max(n, 100) if dtype == torch.float32 else 100, generator=g)[:n].double() + 1
    s = torch.randint(0, 2, (n,), generator=g).double() * 2 - 1
    return (v * s).reshape(tuple(shape))


@st.composite
def gta(draw, names=tuple(GTA)):
    m = draw(st.sampled_from(list(names)))
    n = draw(st.integers(1, 4))
    dt = draw(dts)
    shape = draw(shapes(1, 3, 8 if dt == "float32" else 4))
    wst = draw(st.sampled_from(["dyadic", "positive"]))
    c = {"method": m, "shape": shape, "dtype": dt, "seed": draw(seeds), "changes": draw(st.sampled_from(["distinct", "distinct", "same-sign", "free", "ties"])),
         "ws": usable(dt, draw(st.lists(dyadic if wst == "dyadic" else posw, min_size=n, max_size=n))),
         "density": draw(st.lists(st.one_of(st.sampled_from([1.0, 0.5, 0.34, 0.75, 0.1, 0.9]), st.floats(0.015625, 1.0, width=32)), min_size=n, max_size=n)),
         "gamma": draw(st.lists(st.one_of(st.none(), st.sampled_from([0.0, 0.01, 0.1, 0.3, 0.9]), st.floats(0, 1, width=32)), min_size=n, max_size=n)),
         "lambda": draw(st.sampled_from([None, 1.0, 0.5, 2.0, 0.0, -1.0, 0.3])),
         "normalize": draw(st.sampled_from([None, True, False])), "rescale": draw(st.sampled_from([None, True, False])),
         "int8_mask": draw(st.sampled_from([None, True, False])), "base_at": draw(st.integers(0, n)),
         "skip": draw(st.sampled_from([None, None, None, 0, 1])), "embed": draw(st.booleans())}
    return c


def build(case):
    """(base, xs): exact tensors of the case."""
    dt = DTYPES[case["dtype"]]
    shape = case["shape"]
    base = make(shape, case["seed"], "ints", dt) * 4
    xs = []
    for i in range(len(case["ws"])):
        sd = case["seed"] + 17 * (i + 1)
        kind = case["changes"]
        if kind == "free":
            d = make(shape, sd, "normal", torch.float64)
        elif kind == "ties":
            d = make(shape, sd, "ties", torch.float64)
        else:
            d = distinct(shape, sd, dt)
            if kind == "same-sign":
                d = d.abs()
        xs.append((base.double() + d).to(dt))
    return base, xs


def cut_is_clear(delta, cuts, dtype):
    """The magnitudes around each cut differ by more than rounding."""
    s, _ = torch.sort(delta.abs().reshape(-1), descending=True)
    for c in cuts:
        if 0 < c < s.numel() and float(s[c - 1] - s[c]) <= 8 * refs.EPS[dtype] * float(s[0]):
            return False
    return True


def gta_exact(case, ctx):
    consensus, pruning, dnorm, dresc = GTA[case["method"]]
    dt = DTYPES[case["dtype"]]
    base, xs = build(case)
    deltas = [x.double() - base.double() for x in xs]
    n = base.numel()
    tps, kept = [], []
    resc = dresc if case["rescale"] is None else case["rescale"]
    for i, d in enumerate(deltas):
        dens = case["density"][i]
        tp = {"weight": case["ws"][i], "density": dens}
        if pruning in ("random", "della", None):
            if pruning:
                tp["density"] = dens = 1.0
            m = torch.ones_like(d)
        elif pruning == "magnitude":
            if dens < 1 and int(dens * n) < 1:
                raise Rejected()
            if not cut_is_clear(d, [int(dens * n)], dt):
                raise Rejected()
            m = refs.keep_magnitude(d, dens)
        else:
            gm = case["gamma"][i]
            if gm is not None:
                tp["gamma"] = gm
            gm = 0.01 if gm is None else gm
            k, top = int(dens * n), int(gm * n)
            top = min(top, n - k)
            if not cut_is_clear(d, [top, top + k], dt):
                raise Rejected()
            m = refs.keep_outliers(d, dens, gm)
        kept.append(refs.l1_rescale(d, m) if resc and pruning else d * m)
        tps.append(tp)
    params = {k: case[k] for k in ("lambda", "normalize", "rescale", "int8_mask") if case[k] is not None}
    lam = 1.0 if case["lambda"] is None else case["lambda"]
    norm = dnorm if case["normalize"] is None else case["normalize"]
    ws = list(case["ws"])
    if norm and not consensus and 1e-9 < abs(sum(ws)) < 1e-3:
        raise Rejected()
    # a non-embedding input of another shape is skipped; a larger embedding is cut to the base's size
    tens = [x.clone() for x in xs]
    skip = case["skip"]
    if skip is not None and skip < len(xs):
        if case["embed"]:
            if len(case["shape"]) == 2:
                t = torch.full([s + 1 for s in case["shape"]], 7.0, dtype=dt)
                t[: case["shape"][0], : case["shape"][1]] = tens[skip]
                tens[skip] = t
        else:
            tens[skip] = torch.zeros([s + 1 for s in case["shape"]], dtype=dt)
            kept = [k for i, k in enumerate(kept) if i != skip]
            ws = [w for i, w in enumerate(ws) if i != skip]
    at = min(case["base_at"], len(tens))
    tens.insert(at, base.clone())
    tps.insert(at, {})
    out = run_method(case["method"], tens, at, params, tps, embed=case["embed"])
    ctx.label(case["method"], f"n={len(xs)}", case["dtype"], case["changes"], "normalize" if norm else "raw")
    ctx.interesting(len(xs) >= 2 and n >= 4)
    require(out.dtype == dt, "%s of %s tensors returned %s", case["method"], dt, out.dtype)
    if not kept:
        require(bool((out == base).all()), "no usable input: expected the base, got %s", describe(out))
        return
    cands, scale, ok = refs.combine(base.double(), kept, ws, consensus=consensus, normalize=norm, lam=lam,
                                    tol=0.0 if case["changes"] == "distinct" and dt == torch.float32 and not resc and all(float(w * 4).is_integer() for w in ws)
                                    else 16 * refs.EPS[dt])
    near(out, cands, scale, ok, dt, case["method"], k=24)


# ---------------------------------------------------------------- randomized pruning: some mask explains the result
@st.composite
def rnd(draw):
    n = draw(st.integers(1, 3))
    sz = draw(st.integers(1, {1: 10, 2: 5, 3: 4}[n]))
    m = draw(st.sampled_from(["dare_ties", "dare_linear", "della", "della_linear"]))
    dens = draw(st.lists(st.sampled_from([0.2, 0.5, 0.8, 0.35, 1.0]), min_size=n, max_size=n))
    two = draw(st.booleans())
    return {"method": m, "n": n, "shape": [2, sz // 2] if two and sz % 2 == 0 else [sz], "seed": draw(seeds),
            "density": dens, "epsilon": [draw(st.sampled_from([None, 0.0, 0.05, 0.15, 0.19])) for _ in range(n)],
            "ws": draw(st.lists(dyadic, min_size=n, max_size=n)), "lambda": draw(st.sampled_from([None, 0.5, 2.0])),
            "normalize": draw(st.sampled_from([None, True, False])), "rescale": draw(st.sampled_from([None, True, False])),
            "rng": draw(seeds)}


def gta_random(case, ctx):
    consensus, pruning, dnorm, dresc = GTA[case["method"]]
    shape = case["shape"]
    n = prod(shape)
    base = make(shape, case["seed"], "ints")
    deltas = [distinct(shape, case["seed"] + 31 * (i + 1), torch.float32) for i in range(case["n"])]
    tps = [{"weight": w, "density": d} for w, d in zip(case["ws"], case["density"])]
    if pruning == "della":
        for tp, e in zip(tps, case["epsilon"]):
            if e is not None:
                tp["epsilon"] = e
    resc = dresc if case["rescale"] is None else case["rescale"]
    norm = dnorm if case["normalize"] is None else case["normalize"]
    lam = 1.0 if case["lambda"] is None else case["lambda"]
    ws = case["ws"]
    params = {k: case[k] for k in ("lambda", "normalize", "rescale") if case[k] is not None}
    torch.manual_seed(case["rng"])
    out = run_method(case["method"], [base.clone()] + [(base.double() + d).float() for d in deltas], 0, params, [{}] + tps)
    require(out.shape == base.shape and out.dtype == base.dtype, "%s returned %s", case["method"], describe(out))
    # every combination of masks, as one batch: [models, combos, n]
    masks = torch.tensor(list(itertools.product([0.0, 1.0], repeat=n)), dtype=torch.float64)
    per = []
    for d, dens in zip(deltas, case["density"]):
        f = d.reshape(1, -1)
        if dens >= 1:
            per.append(f.clone())
            continue
        v = f * masks
        if resc:
            after = v.abs().sum(1, keepdim=True)
            v = torch.where(after > 0, v * (f.abs().sum() / after.clamp(min=1e-9)), v)
        per.append(v)
    grids = torch.meshgrid(*[torch.arange(p.shape[0]) for p in per], indexing="ij")
    chosen = [p[g.reshape(-1)] for p, g in zip(per, grids)]
    b = base.double().reshape(1, -1)
    cands, scale, ok = refs.combine(b.expand_as(chosen[0]), chosen, ws, consensus=consensus, normalize=norm, lam=lam, tol=1e-5)
    o = out.double().reshape(1, -1)
    tol = 64 * refs.EPS[torch.float32] * (scale + 1)
    good = torch.zeros_like(ok)
    for c in cands:
        good |= (o - c).abs() <= tol
    good |= ~ok
    hit = good.all(1)
    ctx.label(case["method"], f"n={case['n']}", "rescale" if resc else "plain")
    ctx.interesting(n >= 3 and any(d < 1 for d in case["density"]) and any(w for w in ws))
    require(bool(hit.any()), "%s: no choice of pruned elements gives %s (base %s)", case["method"], out.reshape(-1).tolist(),
            base.reshape(-1).tolist())


# ---------------------------------------------------------------- randomized pruning: documented probabilities
@st.composite
def stat(draw):
    m = draw(st.sampled_from(["dare_ties", "dare_linear", "della", "della_linear"]))
    d = draw(st.sampled_from([0.1, 0.3, 0.5, 0.7, 0.9]))
    return {"method": m, "density": [d, draw(st.sampled_from([0.2, 0.5, 0.8]))], "epsilon": draw(st.sampled_from([None, 0.0, 0.05, 0.09])) if d in (0.1, 0.9) else draw(st.sampled_from([None, 0.0, 0.1, 0.15])),
            "seed": draw(seeds), "rows": draw(st.sampled_from([1, 20, 400])), "dtype": draw(st.sampled_from(["float32", "float16"]))}


def stats(case, ctx):
    """Two models changing disjoint halves of the tensor, so both masks are visible."""
    pruning = GTA[case["method"]][1]
    if pruning == "della" and case["epsilon"] is None and case["density"][0] in (0.1, 0.9):
        raise Rejected()
    rows, cols = case["rows"], 8000 // case["rows"]
    dt = DTYPES[case["dtype"]]
    n = rows * cols
    base = torch.zeros(rows, 2 * cols, dtype=dt)
    g = rng(case["seed"])
    # every row has magnitudes 1..cols (scaled) in random order on the model's own half
    vals = torch.stack([torch.randperm(cols, generator=g) for _ in range(rows)]).double() + 1
    vals = vals / 64
    xs = []
    for i in range(2):
        x = torch.zeros(rows, 2 * cols, dtype=torch.float64)
        x[:, i * cols:(i + 1) * cols] = vals
        xs.append(x.to(dt))
    eps = 0.15 if case["epsilon"] is None else case["epsilon"]
    tps = [{}]
    for d in case["density"]:
        tp = {"weight": 1.0, "density": d}
        if pruning == "della":
            if not 0 < d - eps or not d + eps < 1:
                raise Rejected()
            if case["epsilon"] is not None:
                tp["epsilon"] = case["epsilon"]
        tps.append(tp)
    torch.manual_seed(case["seed"])
    out = run_method(case["method"], [base] + xs, 0, {"rescale": False, "normalize": False}, tps)
    kept = [(out[:, i * cols:(i + 1) * cols] != 0).double() for i in range(2)]
    ctx.label(case["method"], f"density={case['density'][0]}")
    ctx.interesting()
    for i, d in enumerate(case["density"]):
        sub = out[:, i * cols:(i + 1) * cols]
        require(bool(((sub == 0) | (sub == xs[i][:, i * cols:(i + 1) * cols])).all()), "%s: kept elements were changed", case["method"])
        k = kept[i]
        if pruning == "random":
            p = torch.full_like(k, d)
        else:
            # the other half of each row is zero: the model's own elements take the upper half of the ranks
            rank = vals * 64 - 1 + cols  # 0-based rank among 2*cols
            p = (d - eps) + 2 * eps * rank / (2 * cols - 1)
        groups = {"all": torch.ones_like(k), "small": (vals <= vals.median()).double(), "large": (vals > vals.median()).double(),
                  "smallest tenth": (vals * 64 <= cols / 10 + 1).double(), "largest tenth": (vals * 64 > cols * 0.9).double(),
                  "first half": (torch.arange(n).reshape(rows, cols) < n // 2).double()}
        for name, sel in groups.items():
            mean = float((p * sel).sum())
            sd = float((p * (1 - p) * sel).sum()) ** 0.5
            got = float((k * sel).sum())
            require(abs(got - mean) <= 7 * sd + 3, "%s density %g: %d of %d elements kept in group %r, expected %.1f (sd %.1f)",
                    case["method"], d, int(got), int(sel.sum()), name, mean, sd)
    # masks of different models are independent
    a, b = kept
    both = float((a * b).sum())
    if pruning == "random":
        q = case["density"][0] * case["density"][1]
        require(abs(both - q * n) <= 7 * (q * (1 - q) * n) ** 0.5 + 3, "%s: the masks of two models are correlated (%d joint, expected %.1f)",
                case["method"], int(both), q * n)


# ---------------------------------------------------------------- whole merges
@st.composite
def whole(draw):
    m = draw(st.sampled_from(["linear"] + list(GTA)))
    n = draw(st.integers(2, 3))
    return {"method": m, "n": n, "seed": draw(seeds), "ws": draw(st.lists(st.sampled_from([0.25, 0.5, 1.0, 2.0]), min_size=n, max_size=n)),
            "density": draw(st.lists(st.sampled_from([0.3, 0.5, 0.8, 1.0]), min_size=n, max_size=n)),
            "gamma": draw(st.sampled_from([None, 0.0, 0.1, 0.3])), "epsilon": draw(st.sampled_from([None, 0.05, 0.15])),
            "lambda": draw(st.sampled_from([None, 0.5, 2.0])), "normalize": draw(st.sampled_from([None, True, False])),
            "rescale": draw(st.sampled_from([None, False, True])), "listed": draw(st.booleans()), "rev": draw(st.booleans()),
            "opts": {"lazy_unpickle": draw(st.booleans()), "low_cpu_memory": False, "out_shard_size": draw(st.sampled_from([300, 10**9]))}}


def merges(case, ctx):
    root = ctx.tmp()
    m, n = case["method"], case["n"]
    paths, states = e2e.inputs(root, n + 1, case["seed"])
    order = list(range(n + 1))
    if case["rev"]:
        order.reverse()
    params = {k: case[k] for k in ("lambda", "normalize", "rescale") if case[k] is not None and (m != "linear" or k == "normalize")}
    ws = case["ws"]
    ctx.label(m)
    ctx.interesting(len(set(ws)) > 1)
    if m == "linear":
        out = e2e.run(root, m, paths[1:], tparams=[{"weight": w} for w in ws], params=params, order=[i - 1 for i in order if i], options=case["opts"])
        norm = case["normalize"] is not False
        for k in states[0]:
            ref, sc = refs.linear([s[k].double() for s in states[1:]], ws, norm)
            require(k in out, "%s is missing from the output", k)
            near(out[k], [ref], sc, torch.ones_like(ref, dtype=torch.bool), torch.float32, f"linear merge, {k}")
        return
    consensus, pruning, dnorm, dresc = GTA[m]
    tps = [{}]
    for i in range(n):
        tp = {"weight": ws[i], "density": case["density"][i]}
        if pruning in ("della", None) and pruning:
            tp["density"] = 1.0 if case["density"][i] > 0.75 else case["density"][i]
            if case["epsilon"] is not None:
                tp["epsilon"] = case["epsilon"]
        if pruning == "outliers" and case["gamma"] is not None:
            tp["gamma"] = case["gamma"]
        tps.append(tp)
    norm = dnorm if case["normalize"] is None else case["normalize"]
    resc = dresc if case["rescale"] is None else case["rescale"]
    if pruning in ("random", "della") and resc:
        # rescaling of unknown masks is covered by gta_random
        for tp in tps[1:]:
            tp["density"] = 1.0
    lam = 1.0 if case["lambda"] is None else case["lambda"]
    out = e2e.run(root, m, paths, base=0, params=params, tparams=tps, order=order, listed_base=case["listed"], options=case["opts"])
    for k, b in states[0].items():
        require(k in out, "%s is missing from the output", k)
        base = b.double()
        ds = [s[k].double() - base for s in states[1:]]
        nn = base.numel()
        opts = []
        clear = True
        for d, tp in zip(ds, tps[1:]):
            dens = tp["density"]
            if dens >= 1 or pruning is None:
                opts.append([d])
            elif pruning == "magnitude":
                clear &= cut_is_clear(d, [int(dens * nn)], torch.float32)
                mask = refs.keep_magnitude(d, dens)
                opts.append([refs.l1_rescale(d, mask) if resc else d * mask])
            elif pruning == "outliers":
                gm = tp.get("gamma", 0.01)
                kk, top = int(dens * nn), int(gm * nn)
                top = min(top, nn - kk)
                clear &= cut_is_clear(d, [top, top + kk], torch.float32)
                mask = refs.keep_outliers(d, dens, gm)
                opts.append([refs.l1_rescale(d, mask) if resc else d * mask])
            else:
                opts.append([d, torch.zeros_like(d)])
        if not clear:
            continue
        cands, scale, ok = [], torch.zeros_like(base), torch.ones_like(base, dtype=torch.bool)
        for combo in itertools.product(*opts):
            c, sc, o = refs.combine(base, list(combo), ws, consensus=consensus, normalize=norm, lam=lam, tol=1e-5)
            cands += c
            scale = torch.maximum(scale, sc)
            ok &= o
        near(out[k], cands, scale, ok, torch.float32, f"{m} merge, {k}", k=24)


def prepare():
    e2e.warm()


TESTS = [
    Test("linear", lin, linear, quick=2500, thorough=60000, shards=3, budget=60, rule="at least two models with different weights"),
    Test("gta_exact", gta, gta_exact, quick=6000, thorough=150000, shards=6, budget=80, rule="at least two models and four elements"),
    Test("gta_random", rnd, gta_random, quick=2500, thorough=60000, shards=6, budget=80,
         rule="at least three elements, some density below 1 and some non-zero weight; all masks are enumerated"),
    Test("stats", stat, stats, quick=160, thorough=3000, shards=4, budget=60, rule="8000 elements per model, six groups each"),
    Test("merges", whole, merges, quick=320, thorough=8000, shards=8, budget=70, rule="whole merges of three or four models with unequal weights"),
]
