"""C11: selective merges against independent float64 statements of their rules."""
import math

import torch
from hypothesis import strategies as st

from vp import e2e, refs
from vp.core import Rejected, Test, require
from vp.gen import DTYPES, KINDS, describe, make, prod, rng, same, seeds, shapes
from vp.methods import run_method

PROPERTY = "C11"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated tensors and parameters against independent float64 statements of each rule, element by element"
ASSUMPTIONS = [
    "model stock: task vectors whose norm product is below 1e-5 (where the implementation guards its cosine) are not compared",
    "nearswap: swap widths t below 1e-6 other than 0 are not generated",
    "selections decided within rounding of their threshold accept either side",
    "arcee fusion above one million elements samples its quantiles and is not compared",
]
dts = st.sampled_from(["float32", "float32", "float32", "bfloat16", "float16"])
ALL = lambda x: torch.ones_like(x, dtype=torch.bool)  # noqa: E731


def near(out, cands, tol, dt, what):
    require(isinstance(out, torch.Tensor) and out.shape == cands[0].shape, "%s: result is %s, expected shape %s", what, describe(out),
            tuple(cands[0].shape))
    require(out.dtype == dt, "%s: %s inputs gave a %s result", what, dt, out.dtype)
    bad = ALL(out)
    for c in cands:
        bad &= ~((out.double() - c).abs() <= tol)
    if bool(bad.any()):
        i = tuple(torch.nonzero(bad)[0].tolist())
        require(False, "%s: element %s is %r, expected %s", what, list(i), float(out[i]), sorted({float(c[i]) for c in cands}))


def lay(x, how):
    """Same values, other memory layout."""
    if how and x.dim() >= 2:
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    return x


def put(xs, base, at):
    at = min(at, len(xs))
    return xs[:at] + [base] + xs[at:], at


# ---------------------------------------------------------------- model stock
@st.composite
def stocks(draw):
    n = draw(st.integers(2, 5))
    return {"n": n, "shape": draw(shapes(1, 3, 6)), "seed": draw(seeds), "dtype": draw(dts), "filter_wise": draw(st.sampled_from([None, False, True])),
            "kind": draw(st.sampled_from(["shared", "free", "free", "opposite", "same", "zero", "one-zero"])), "at": draw(st.integers(0, 5)), "strided": draw(st.booleans()),
            "share": draw(st.sampled_from([0.3, 1.0, 3.0])), "grow": draw(st.one_of(st.none(), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), min_size=n + 1, max_size=n + 1)))}


def stock_inputs(case, dt):
    base = make(case["shape"], case["seed"], "normal", dt)
    d0 = make(case["shape"], case["seed"] + 1, "normal", torch.float64)
    xs = []
    for i in range(case["n"]):
        d = make(case["shape"], case["seed"] + 2 + i, "normal", torch.float64)
        k = case["kind"]
        if k == "shared":
            d = d0 * case["share"] + d
        elif k == "opposite":
            d = d0 * (1 if i % 2 == 0 else -1)
        elif k == "same":
            d = d0
        elif k == "zero" or (k == "one-zero" and i == 0):
            d = d * 0
        xs.append((base.double() + d).to(dt))
    return base, xs


def model_stock(case, ctx):
    dt = DTYPES[case["dtype"]]
    base, xs = stock_inputs(case, dt)
    big = case["grow"] is not None and len(case["shape"]) == 2
    ts, at = put(xs, base, case["at"])
    if big:
        g = []
        for x, (r, c) in zip(ts, case["grow"]):
            y = torch.full((x.shape[0] + r, x.shape[1] + c), 2.0, dtype=dt)
            y[:x.shape[0], :x.shape[1]] = x
            g.append(y)
        lim = [min(y.shape[0] for y in g), min(y.shape[1] for y in g)]
        ts = g
        xs = [y[:lim[0], :lim[1]] for y in g]
        base = xs.pop(at)
    out = run_method("model_stock", [lay(x, case["strided"]) for x in ts], at, {} if case["filter_wise"] is None else {"filter_wise": case["filter_wise"]}, embed=big)
    b = base.double()
    require(out.shape == b.shape and out.dtype == dt, "model_stock: result %s for inputs %s", describe(out), describe(base))
    require(bool(torch.isfinite(out).all()), "model_stock: finite inputs gave %s", describe(out))
    ctx.label(case["kind"], f"n={case['n']}", case["dtype"], "filter" if case["filter_wise"] else "whole")
    rows = b.reshape(1, -1) if not case["filter_wise"] or b.dim() == 1 else b.reshape(-1, b.shape[-1])
    o = out.double().reshape(rows.shape)
    vs = [x.double().reshape(rows.shape) for x in xs]
    eps = refs.EPS[dt]
    n = case["n"]
    compared = 0
    for r in range(rows.shape[0]):
        w0, ws = rows[r], [v[r] for v in vs]
        offs = [w - w0 for w in ws]
        nr = [float(f.norm()) for f in offs]
        cs, amb = [], False
        for i in range(n):
            for j in range(i + 1, n):
                p = nr[i] * nr[j]
                if 0 < p < 1e-5:
                    amb = True
                cs.append(max(-1.0, min(1.0, float((offs[i] * offs[j]).sum()) / p)) if p > 0 else 0.0)
        if amb:
            continue
        c = sum(cs) / len(cs)
        den = 1 + (n - 1) * c
        size = float(w0.abs().max()) + max(float(w.abs().max()) for w in ws)
        cerr = 24 * eps * (1 + 2 * size / max(min([x for x in nr if x > 0], default=1.0), 1e-9))
        if abs(den) < 4 * n * cerr + 1e-3:
            if abs(den) < 1e-12 and all(float(f.abs().max()) == 0 for f in [sum(offs)]):
                pass  # average equals the base: any interpolation gives the base
            ctx.label("singular")
            continue
        t = n * c / den
        avg = sum(ws) / n
        want = t * avg + (1 - t) * w0
        terr = n * cerr / den**2
        tol = terr * float((avg - w0).abs().max()) + 16 * eps * (1 + abs(t)) * size + 1e-6
        err = float((o[r] - want).abs().max())
        require(err <= tol, "model_stock (cos %.5f, t %.5f): row is %s, expected %s (difference %g, tolerance %g)", c, t, describe(o[r]), describe(want), err, tol)
        compared += 1
    ctx.interesting(compared > 0 and case["kind"] not in ("zero", "same") and prod(case["shape"]) > 1)


# ---------------------------------------------------------------- nearswap
@st.composite
def swaps(draw):
    return {"shape": draw(shapes(1, 3, 6)), "seed": draw(seeds), "dtype": draw(dts), "kind": draw(st.sampled_from(KINDS)), "at": draw(st.integers(0, 1)),
            "spread": draw(st.sampled_from([1.0, 0.1, 0.01])),
            "t": draw(st.one_of(st.sampled_from([0.0, 0.001, 0.01, 0.1, 0.5, 1.0, 10.0]), st.floats(0.0009765625, 2, width=32))), "alone": draw(st.sampled_from([False] * 9 + [True]))}


def nearswap(case, ctx):
    dt = DTYPES[case["dtype"]]
    base = make(case["shape"], case["seed"], case["kind"], dt)
    x = (base.double() + case["spread"] * make(case["shape"], case["seed"] + 1, case["kind"], torch.float64)).to(dt)
    if case["alone"]:
        out = run_method("nearswap", [base], 0, {"t": case["t"]})
        require(same(out, base), "nearswap of the base alone changed it: %s", describe(out))
        return
    ts, at = put([x], base, case["at"])
    out = run_method("nearswap", ts, at, {"t": case["t"]})
    b, y = base.double(), x.double()
    want = refs.nearswap(b, y, case["t"])
    # each element moves at most t towards the other model and never past it
    tol = 16 * refs.EPS[dt] * (b.abs() + y.abs() + case["t"]) + (1e-6 if dt != torch.float32 else 1e-9)
    near(out, [want], tol, dt, f"nearswap t={case['t']}")
    frac = ((b - y).abs() <= case["t"]).double().mean()
    ctx.label(case["dtype"], "partial" if 0 < frac < 1 else "uniform")
    ctx.interesting(bool(0 < frac < 1))


# ---------------------------------------------------------------- arcee fusion
@st.composite
def fusions(draw):
    return {"shape": draw(st.one_of(shapes(1, 3, 9, 3), shapes(1, 3, 3))), "seed": draw(seeds), "dtype": draw(dts), "at": draw(st.integers(0, 1)), "spread": draw(st.sampled_from([0.3, 2.0, 1.0, 0.01, 0.0])),
            "sparse": draw(st.booleans()), "strided": draw(st.booleans()), "grow": draw(st.one_of(st.none(), st.tuples(*[st.integers(0, 2)] * 4)))}


def fusion(case, ctx):
    dt = DTYPES[case["dtype"]]
    base = make(case["shape"], case["seed"], "normal", dt)
    d = make(case["shape"], case["seed"] + 1, "sparse" if case["sparse"] else "normal", torch.float64)
    x = (base.double() + case["spread"] * d).to(dt)
    gb, gx = base, x
    if case["grow"] and len(case["shape"]) == 2:
        g = case["grow"]

        def pad(v, r, c):
            y = torch.full((v.shape[0] + r, v.shape[1] + c), 1.0, dtype=dt)
            y[:v.shape[0], :v.shape[1]] = v
            return y
        gb, gx = pad(base, g[0], g[1]), pad(x, g[2], g[3])
        lim = [min(gb.shape[0], gx.shape[0]), min(gb.shape[1], gx.shape[1])]
        base, x = gb[:lim[0], :lim[1]], gx[:lim[0], :lim[1]]
    ts, at = put([gx], gb, case["at"])
    out = run_method("arcee_fusion", [lay(v, case["strided"]) for v in ts], at, embed=bool(case["grow"]))
    b, y = base.double(), x.double()
    eps = refs.EPS[dt]
    require(out.shape == base.shape, "arcee_fusion: result %s for inputs %s", describe(out), describe(base))
    tol = 4 * eps * (b.abs() + y.abs()) + 1e-12
    near(out, [b, y], tol, dt, "arcee_fusion (base or changed value)")
    ctx.label(case["dtype"], f"spread={case['spread']}")
    if dt != torch.float32:
        return
    imp, thr = refs.arcee(b, y)
    # rounding of softmax and its logarithms
    slack = 3e-6 * (y - b).abs() * 4 + 3e-6 * abs(thr) * 4 + 1e-12
    s3 = float((3e-6 * (y - b).abs().max() * 12))
    must = imp > thr + slack + s3
    mustnt = imp < thr - slack - s3
    changed = (out.double() - y).abs() <= tol
    kept = (out.double() - b).abs() <= tol
    require(bool((changed | ~must).all()), "arcee_fusion: an element of importance above the threshold %g kept the base value", thr)
    require(bool((kept | ~mustnt).all()), "arcee_fusion: an element of importance below the threshold %g was changed", thr)
    ctx.interesting(bool(must.any()) and bool(mustnt.any()))


# ---------------------------------------------------------------- RAM / RAM+
@st.composite
def rams(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 1]))
    return {"n": n, "shape": draw(st.one_of(shapes(1, 3, 7, 2), shapes(1, 3, 3))), "seed": draw(seeds), "dtype": draw(dts), "plus": draw(st.booleans()), "eps": draw(st.sampled_from([None, 1e-5, 0.0, 0.1, 0.5])),
            "r": draw(st.sampled_from([None, 0.1, 0.5, 0.0, 2.0])), "alpha": draw(st.sampled_from([None, 0.2, 0.5, 1.0, 5.0])), "at": draw(st.integers(0, 5)),
            "keep": draw(st.sampled_from([0.5, 0.2, 0.5, 1.0, 0.0])), "dead": draw(st.lists(st.sampled_from([False] * 5 + [True]), min_size=n, max_size=n)), "strided": draw(st.booleans())}


def ram(case, ctx):
    dt = DTYPES[case["dtype"]]
    base = make(case["shape"], case["seed"], "ints", dt)
    xs = []
    for i in range(case["n"]):
        g = rng(case["seed"] + 10 + i)
        d = torch.randint(-8, 9, tuple(case["shape"]), generator=g).double() / 4
        m = torch.rand(tuple(case["shape"]), generator=g, dtype=torch.float64) < case["keep"]
        d = d * m * (0 if case["dead"][i] else 1)
        xs.append((base.double() + d).to(dt))
    ts, at = put(xs, base, case["at"])
    params = {}
    if case["eps"] is not None:
        params["epsilon"] = case["eps"]
    plus = None
    if case["plus"]:
        for k in ("r", "alpha"):
            if case[k] is not None:
                params[k] = case[k]
        plus = (0.1 if case["r"] is None else case["r"], 0.2 if case["alpha"] is None else case["alpha"])
    eps = 1e-5 if case["eps"] is None else case["eps"]
    name = "ramplus_tl" if case["plus"] else "ram"
    out = run_method(name, [lay(v, case["strided"]) for v in ts], at, params)
    want, ds, act = refs.ram(base.double(), [x.double() for x in xs], eps, plus)
    mag = ds.abs().sum(0).reshape(base.shape)
    tol = 16 * refs.EPS[dt] * (base.double().abs() + 3 * mag) + 1e-9
    near(out, [want], tol, dt, f"{name} {params}")
    cnt = act.sum(0)
    ctx.label(name, f"n={case['n']}", case["dtype"], "unique" if bool((cnt == 1).any()) else "no-unique", "shared" if bool((cnt > 1).any()) else "no-shared")
    ctx.interesting(bool((cnt == 1).any()) and bool((cnt > 1).any()))


# ---------------------------------------------------------------- SCE
@st.composite
def sces(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 1]))
    return {"n": n, "shape": draw(st.one_of(shapes(1, 3, 7, 2), shapes(1, 3, 3))), "seed": draw(seeds), "dtype": draw(dts), "topk": draw(st.one_of(st.none(), st.sampled_from([1.0, 0.0, 0.01, 0.1, 0.5, 0.9]), st.floats(0.0078125, 0.9921875, width=32))),
            "int8": draw(st.sampled_from([None, True, False])), "at": draw(st.integers(0, 5)), "changes": draw(st.sampled_from(["free", "free", "ints", "same", "zero", "partial"])),
            "strided": draw(st.booleans()), "small": draw(st.integers(0, 3)) == 0}


def sce(case, ctx):
    dt = DTYPES[case["dtype"]]
    base = make(case["shape"], case["seed"], "ints", dt)
    xs = []
    for i in range(case["n"]):
        g = rng(case["seed"] + 10 + (0 if case["changes"] == "same" else i))
        if case["changes"] == "ints":
            d = torch.randint(-2, 3, tuple(case["shape"]), generator=g).double()
        else:
            d = torch.randint(-60, 61, tuple(case["shape"]), generator=g).double() / 16
        if case["changes"] == "zero":
            d = d * 0
        if case["changes"] == "partial":
            d = d * (make(case["shape"], case["seed"] + 5, "ints", torch.float64) > 0)
        if case["small"] and dt == torch.float32:
            d = d / 64
        xs.append((base.double() + d).to(dt))
    ts, at = put(xs, base, case["at"])
    params = {}
    if case["topk"] is not None:
        params["select_topk"] = case["topk"]
    if case["int8"] is not None:
        params["int8_mask"] = case["int8"]
    out = run_method("sce", [lay(v, case["strided"]) for v in ts], at, params)
    b = base.double()
    topk = 1.0 if case["topk"] is None else case["topk"]
    ds = torch.stack([x.double() - b for x in xs])
    eps = refs.EPS[dt]
    sel = [ALL(b)]
    free = torch.zeros_like(b, dtype=torch.bool)
    if topk < 1:
        var = ds.var(dim=0, unbiased=False)
        flat = var.reshape(-1)
        nz = int((flat > 1e-12).sum())
        ks = {int(math.floor(nz * topk + s)) for s in (-1e-6 * nz, 1e-6 * nz)}
        ks = {max(0, min(k, nz)) for k in ks}
        if len(ks) > 1:
            raise Rejected()
        k = ks.pop()
        order = torch.sort(flat, descending=True).values
        if 0 < k < flat.numel():
            gap = float(order[k - 1] - order[k])
            if gap <= 64 * eps * float(order[k - 1]):
                raise Rejected()
        cut = float(order[k - 1]) if k else math.inf
        sel = [(var >= cut) & (var > 1e-12) if k else torch.zeros_like(b, dtype=torch.bool)]
    del free
    dm = ds * sel[0].double()
    sq = [float((d**2).mean()) for d in dm]
    tot = sum(sq)
    n = case["n"]
    if 0 < tot < 1e-4:
        raise Rejected()
    ws = [1.0 / n] * n if tot == 0 else [s / tot for s in sq]
    total, mag = dm.sum(0), dm.abs().sum(0)
    both = []
    weak = torch.zeros_like(b, dtype=torch.bool)
    for sign in (1, -1):
        num, div = torch.zeros_like(b), torch.zeros_like(b)
        for w, d in zip(ws, dm):
            m = (torch.sign(d) == sign).double()
            num += w * d * m
            div += w * m
        weak |= (div > 0) & (div < 1e-4)
        both.append(b + torch.where(div > 0, num / div.clamp(min=1e-300), torch.zeros_like(b)))
    tie = total.abs() <= 8 * n * eps * mag
    cands = [torch.where((total >= 0) | tie, both[0], both[1]), torch.where((total <= 0) | tie, both[1], both[0])]
    tol = 64 * eps * (b.abs() + mag) + torch.where(weak, 2 * mag, torch.zeros_like(mag)) + 1e-9
    near(out, cands, tol, dt, f"sce {params}")
    ctx.label(f"n={n}", case["dtype"], case["changes"], "selected" if topk < 1 else "all")
    ctx.interesting(n >= 2 and case["changes"] in ("free", "partial") and bool(sel[0].any()))


# ---------------------------------------------------------------- passthrough
@st.composite
def passes(draw):
    return {"shape": draw(shapes(1, 3, 6)), "seed": draw(seeds), "dtype": draw(dts), "kind": draw(st.sampled_from(KINDS)), "strided": draw(st.booleans()),
            "scale": draw(st.sampled_from([None, None, 1.0, 0.0, 0.5, -2.0, 0.3])), "n": draw(st.sampled_from([1, 1, 1, 2, 3]))}


def passthrough(case, ctx):
    dt = DTYPES[case["dtype"]]
    xs = [make(case["shape"], case["seed"] + i, case["kind"], dt) for i in range(case["n"])]
    tp = [{} if case["scale"] is None else {"scale": case["scale"]}] * case["n"]
    ctx.label(f"n={case['n']}", "scaled" if case["scale"] is not None else "plain")
    if case["n"] > 1:
        try:
            out = run_method("passthrough", xs, None, tparams=tp)
        except Exception:  # noqa: BLE001
            return
        require(False, "passthrough accepted %d tensors and returned %s", case["n"], describe(out))
    out = run_method("passthrough", [lay(xs[0], case["strided"])], None, tparams=tp)
    if case["scale"] is None:
        require(same(out, xs[0]), "passthrough changed the tensor: %s instead of %s", describe(out), describe(xs[0]))
    else:
        x = xs[0].double()
        near(out, [x * case["scale"]], 2 * refs.EPS[dt] * x.abs() * abs(case["scale"]) + (1e-7 if dt == torch.float16 else 1e-40), dt, f"passthrough scale={case['scale']}")
        ctx.interesting()


# ---------------------------------------------------------------- whole merges
@st.composite
def whole(draw):
    return {"method": draw(st.sampled_from(["model_stock", "nearswap", "arcee_fusion", "ram", "ramplus_tl", "sce", "passthrough"])), "seed": draw(st.integers(0, 10**6)),
            "spread": draw(st.sampled_from([0.05, 0.5])), "x": draw(st.sampled_from([0.01, 0.1, 0.3, 0.5])), "flag": draw(st.booleans()), "order": draw(st.permutations([1, 2, 3]))}


def e2e_merge(case, ctx):
    root = ctx.tmp()
    m, x = case["method"], case["x"]
    two = m in ("nearswap", "arcee_fusion")
    n = 1 if m == "passthrough" else (2 if two else 4)
    paths, sds = e2e.inputs(root, n, case["seed"], spread=case["spread"])
    params, tp = {}, None
    if m == "model_stock":
        params = {"filter_wise": case["flag"]}
    elif m == "nearswap":
        params = {"t": x}
    elif m == "ramplus_tl":
        params = {"r": x, "epsilon": 0.05 * case["spread"]}
    elif m == "ram":
        params = {"epsilon": 0.05 * case["spread"]}
    elif m == "sce":
        params = {"select_topk": 1.0}
    elif m == "passthrough":
        tp = [{"scale": x}] if case["flag"] else None
    base = None if m == "passthrough" else 0
    order = [0] + (case["order"] if n == 4 else list(range(1, n)))
    out = e2e.run(root, m, paths, base=base, params=params, tparams=tp, order=order, listed_base=two and case["flag"])
    ctx.label(m)
    ctx.interesting()
    for k in sorted(sds[0]):
        v = [sd[k].double() for sd in sds]
        got = out[k]
        tol = 2e-5 * sum(float(q.abs().max()) for q in v)
        if m == "passthrough":
            cands = [v[0] * (x if case["flag"] else 1.0)]
        elif m == "model_stock":
            ref, den, small, t = refs.model_stock(v[0], v[1:], case["flag"])
            if den < 0.05 or small < 1e-5:
                continue
            cands = [ref]
        elif m == "nearswap":
            cands = [refs.nearswap(v[0], v[1], x)]
        elif m == "arcee_fusion":
            cands = [v[0], v[1]]
            imp, thr = refs.arcee(v[0], v[1])
            far = (imp - thr).abs() > 1e-4 * float(imp.max()) + 1e-9
            pick = torch.where(imp >= thr, v[1], v[0])
            require(bool((((got.double() - pick).abs() <= tol) | ~far).all()), "arcee_fusion merge: tensor %s does not follow the importance threshold", k)
        elif m == "sce":
            cands, _, _ = refs.sce(v[0], v[1:], 1.0, 1e-5)
        else:
            ref, ds, act = refs.ram(v[0], v[1:], params["epsilon"], (x, 0.2) if m == "ramplus_tl" else None)
            if bool(((ds.abs() - params["epsilon"]).abs() < 1e-6).any()):
                continue
            cands = [ref]
        near(got, cands, tol, torch.float32, f"{m} merge: tensor {k}")


def prepare():
    e2e.warm()


TESTS = [
    Test("model_stock", stocks, model_stock, quick=600, thorough=20000, shards=1, rule="2-5 models; non-trivial = rows compared with differing nonzero task vectors"),
    Test("nearswap", swaps, nearswap, quick=500, thorough=20000, rule="non-trivial = some elements differ by less than t and some by more"),
    Test("arcee_fusion", fusions, fusion, quick=500, thorough=20000, rule="non-trivial (float32) = clear elements on both sides of the threshold"),
    Test("ram", rams, ram, quick=800, thorough=30000, rule="RAM and RAM+; non-trivial = both uniquely and jointly changed elements"),
    Test("sce", sces, sce, quick=800, thorough=30000, rule="non-trivial = 2 or more models with generic changes and something selected"),
    Test("passthrough", passes, passthrough, quick=250, thorough=5000, rule="non-trivial = scaled"),
    Test("whole_merge", whole, e2e_merge, quick=60, thorough=800, shards=2, rule="merges of tiny models from configuration to written tensors"),
]
