"""C12: laws that hold for every merge method."""
import torch
from hypothesis import strategies as st

from vp import methods, refs
from vp.core import Rejected, Test, require
from vp.gen import DTYPES, bits, describe, make, prod, rng, same, seeds, shapes
from vp.methods import run_method

PROPERTY = "C12"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: metamorphic relations (identity, permutation, cropping, repetition, shared inputs) over generated "
             "inputs of every registered merge method")
ASSUMPTIONS = [
    "weights that sum to zero under normalization, and inputs whose weighted directions cancel (multi-slerp), are undefined and not generated",
    "a density that would keep no element of a tensor is refused by the pruning and not generated",
    "a spread-out set of directions has no unique Karcher mean: permutation is checked for clustered inputs only",
    "randomized pruning is compared across permutations only at density 1 (nothing random is drawn)",
]
GTA = ["task_arithmetic", "ties", "dare_ties", "dare_linear", "breadcrumbs", "breadcrumbs_ties", "della", "della_linear"]
RANDOM = {"dare_ties", "dare_linear", "della", "della_linear"}
RECTIFY = ["linear", "slerp", "nuslerp", "karcher", "model_stock", "arcee_fusion"]
ALL = ["linear", "slerp", "nuslerp", "passthrough", "model_stock", "arcee_fusion", "karcher", "multislerp", "nearswap", "sce", "ram", "ramplus_tl"] + GTA
dts = st.sampled_from(["float32", "float32", "float32", "bfloat16", "float16"])
pw = st.sampled_from([1.0, 0.5, 2.0, 0.25, 3.0])


def counts(m):
    """Numbers of models other than the base, and whether a base is used (None = optional)."""
    if m == "passthrough":
        return [1], False
    if m == "slerp" or m == "arcee_fusion" or m == "nearswap":
        return [1], True
    if m == "nuslerp":
        return [2], None
    if m == "model_stock":
        return [2, 3, 4], True
    if m in ("sce", "ram", "ramplus_tl") or m in GTA:
        return [1, 2, 3, 4], True
    return [2, 3, 4], None if m == "multislerp" else False


@st.composite
def settings(draw, m, n):
    """Global and per-model parameters of a method."""
    p, tp = {}, [{} for _ in range(n)]
    b = st.booleans()

    def maybe(k, strat):
        if draw(b):
            p[k] = draw(strat)
    if m == "linear":
        maybe("normalize", b)
        tp = [{"weight": draw(pw)} for _ in range(n)]
    elif m == "slerp":
        p["t"] = draw(st.sampled_from([0.0, 0.3, 0.5, 1.0]))
    elif m == "nearswap":
        p["t"] = draw(st.sampled_from([0.0, 0.01, 0.5, 2.0]))
    elif m == "nuslerp":
        maybe("nuslerp_flatten", b)
        maybe("nuslerp_row_wise", b)
        tp = [{"weight": draw(pw)} for _ in range(n)]
    elif m == "multislerp":
        tp = [{"weight": draw(pw)} for _ in range(n)]
    elif m == "model_stock":
        maybe("filter_wise", b)
    elif m == "sce":
        maybe("select_topk", st.sampled_from([0.0, 0.1, 0.5, 1.0]))
        maybe("int8_mask", b)
    elif m in ("ram", "ramplus_tl"):
        maybe("epsilon", st.sampled_from([0.0, 1e-5, 0.3]))
    elif m in GTA:
        maybe("normalize", b)
        maybe("rescale", b)
        maybe("int8_mask", b)
        maybe("lambda", st.sampled_from([0.5, 1.0, 2.0]))
        for t in tp:
            t["weight"] = draw(pw)
            if draw(b):
                t["density"] = draw(st.sampled_from([0.3, 0.5, 0.8, 1.0]))
            if m.startswith("della") and draw(b):
                t["epsilon"] = draw(st.sampled_from([0.05, 0.1]))
    elif m == "passthrough" and draw(b):
        tp = [{"scale": draw(st.sampled_from([0.5, 2.0]))}]
    return p, tp


@st.composite
def cases(draw, names=ALL):
    m = draw(st.sampled_from(list(names)))
    ns, hasb = counts(m)
    n = draw(st.sampled_from(ns))
    base = draw(st.booleans()) if hasb is None else hasb
    p, tp = draw(settings(m, n))
    return {"method": m, "n": n, "base": base, "params": p, "tparams": tp, "shape": draw(st.one_of(shapes(1, 3, 6), st.just([8, 8]))), "seed": draw(seeds),
            "dtype": draw(dts), "kind": draw(st.sampled_from(["cluster", "cluster", "free", "ints", "zero", "equal"])), "at": draw(st.integers(0, 4)),
            "perm": draw(st.permutations(list(range(n)))), "embed": draw(st.booleans()), "at2": draw(st.integers(0, 4))}


def tensors(case, dt):
    """(base or None, others): a cluster around a common point, free, integer valued, zero or equal."""
    root = make(case["shape"], case["seed"], "normal", torch.float64)
    if case["kind"] == "ints":
        root = (root * 4).round()
    if case["kind"] == "zero":
        root = root * 0
    xs = []
    for i in range(case["n"]):
        d = make(case["shape"], case["seed"] + 1 + i, "normal", torch.float64)
        k = case["kind"]
        if k == "cluster":
            v = root + 0.2 * d
        elif k == "free":
            v = d
        elif k == "ints":
            v = root + torch.randint(-3, 4, tuple(case["shape"]), generator=rng(case["seed"] + 50 + i)).double()
        elif k == "zero":
            v = root
        else:
            v = root
        xs.append(v.to(dt))
    return root.to(dt) if case["base"] else None, xs


def listed(base, xs, tp, at, order=None):
    order = list(range(len(xs))) if order is None else order
    ts = [xs[i] for i in order]
    ps = [tp[i] for i in order]
    names = list(order)
    b = None
    if base is not None:
        b = min(at, len(ts))
        ts.insert(b, base)
        ps.insert(b, {"weight": 1.0})
        names.insert(b, "b")
    return ts, ps, b, names


def undefined(case, base, xs):
    """Multi-slerp of directions that cancel is documented as undefined; pruning refuses to remove a whole tensor."""
    if any(int(t.get("density", 1.0) * prod(case["shape"])) < 1 for t in case["tparams"]):
        return True
    if case["method"] != "multislerp":
        return False
    ys = [x.double() - (base.double() if base is not None else 0) for x in xs]
    us = [t["weight"] * (y / y.norm()) for t, y in zip(case["tparams"], ys) if float(y.norm()) > 0]
    if not us:
        return True
    return float(sum(us).norm()) < 0.1 * sum(t["weight"] for t in case["tparams"])


def go(case, base, xs, at, order=None, seed=0, embed=False):
    ts, ps, b, _ = listed(base, xs, case["tparams"], at, order)
    torch.manual_seed(seed)
    return run_method(case["method"], ts, b, case["params"], ps, embed=embed)


def pure(case, ctx):
    """Shape, type, finiteness; repeatable; inputs untouched."""
    dt = DTYPES[case["dtype"]]
    base, xs = tensors(case, dt)
    if undefined(case, base, xs):
        raise Rejected()
    keep = [bits(x) for x in xs] + ([bits(base)] if base is not None else [])
    out = go(case, base, xs, case["at"], seed=3, embed=case["embed"])
    require(isinstance(out, torch.Tensor), "%s returned %r", case["method"], out)
    require(out.shape == xs[0].shape, "%s: inputs of shape %s gave shape %s", case["method"], tuple(xs[0].shape), tuple(out.shape))
    require(out.dtype == dt, "%s: %s inputs gave %s", case["method"], dt, out.dtype)
    require(bool(torch.isfinite(out).all()), "%s: finite inputs gave %s", case["method"], describe(out))
    first = bits(out)
    now = [bits(x) for x in xs] + ([bits(base)] if base is not None else [])
    require(now == keep, "%s changed an input tensor in place", case["method"])
    out2 = go(case, base, xs, case["at"], seed=3, embed=case["embed"])
    require(bits(out2) == first, "%s gave two results for the same inputs, parameters and seed", case["method"])
    ctx.label(case["method"], case["dtype"], case["kind"])
    ctx.interesting(case["kind"] in ("cluster", "free", "ints") and prod(case["shape"]) > 1)


@st.composite
def idents(draw):
    c = draw(cases([m for m in ALL if m != "passthrough"]))
    m = c["method"]
    c["whole"] = draw(st.booleans())
    if m == "linear":
        c["params"] = {}
    for t in c["tparams"]:
        t.pop("density", None)
    c["params"].pop("lambda", None)
    c["params"].pop("select_topk", None)
    c["params"].pop("epsilon", None)
    if m in GTA:
        c["params"]["normalize"] = True
    return c


def identity(case, ctx):
    """All models equal: the merge is that model."""
    dt = DTYPES[case["dtype"]]
    m = case["method"]
    x = make(case["shape"], case["seed"], "normal", dt)
    base = None
    if case["base"]:
        rel = m in GTA or m in ("sce", "ram", "ramplus_tl", "model_stock", "nuslerp", "multislerp")
        # methods that move away from the base: models equal to each other but not to the base
        base = x if case["whole"] or not rel else make(case["shape"], case["seed"] + 1, "ints", dt)
        if base is not x:
            x = (base.double() + (make(case["shape"], case["seed"] + 2, "normal", torch.float64) * 8).round() / 8).to(dt)
        elif m == "multislerp":
            raise Rejected()  # all task vectors zero
    xs = [x.clone() for _ in range(case["n"])]
    if m == "model_stock" and base is not x:
        d = x.double() - base.double()
        rows = d.reshape(1, -1) if not case["params"].get("filter_wise") or d.dim() == 1 else d.reshape(-1, d.shape[-1])
        if float(rows.norm(dim=-1).min()) < 0.1:
            raise Rejected()
    if m == "multislerp" and float((x.double() - (base.double() if base is not None else 0)).norm()) == 0:
        raise Rejected()
    out = go(case, base, xs, case["at"], seed=5)
    eps = refs.EPS[dt]
    sc = x.double().abs().max() + (base.double().abs().max() if base is not None else 0)
    if m in ("multislerp", "karcher", "nuslerp"):
        sc = sc + (x.double() - (base.double() if base is not None else 0)).norm()
    tol = 48 * eps * float(sc) + 1e-6 * float(sc)
    require(out.shape == x.shape, "%s: shape %s", m, tuple(out.shape))
    err = float((out.double() - x.double()).abs().max())
    require(err <= tol, "%s of %d identical models (base %s) differs from that model by %g: %s instead of %s", m, case["n"],
            "equal" if base is x else ("none" if base is None else "different"), err, describe(out), describe(x))
    ctx.label(m, case["dtype"], "moved" if base is not None and base is not x else "same")
    ctx.interesting(case["n"] >= 2 or (base is not None))


@st.composite
def perms(draw):
    c = draw(cases([m for m in ALL if m not in ("passthrough",)]))
    c["kind"] = draw(st.sampled_from(["ints", "cluster"])) if c["method"] in ("karcher", "multislerp") else "ints"
    if c["method"] == "karcher":
        c["kind"] = "cluster"
    if c["method"] in RANDOM:
        for t in c["tparams"]:
            t.pop("density", None)
    return c


def permutation(case, ctx):
    """Listing the models (and the base) in another order does not matter."""
    dt = DTYPES[case["dtype"]]
    base, xs = tensors(case, dt)
    m = case["method"]
    if undefined(case, base, xs):
        raise Rejected()
    a = go(case, base, xs, case["at"], seed=1)
    b = go(case, base, xs, case["at2"], case["perm"], seed=1)
    sc = sum(float(x.double().abs().max()) for x in xs) + (float(base.double().abs().max()) if base is not None else 0)
    eps = refs.EPS[dt]
    tol = 64 * eps * sc * (4 if m in ("multislerp", "nuslerp") else 1)
    if m == "karcher":
        tol = 2e-3 * sc if dt == torch.float32 else 64 * eps * sc
    if m == "nuslerp":
        # conditioning near opposite directions
        ys = [x.double() - (base.double() if base is not None else 0) for x in xs]
        flat = case["params"].get("nuslerp_flatten", True)
        d = 0 if case["params"].get("nuslerp_row_wise") else -1
        pr = [(ys[0].reshape(-1), ys[1].reshape(-1))] if flat else list(zip(*[y.transpose(d, -1).reshape(-1, y.shape[d]) for y in ys]))
        if any((refs.cosine(p, q) or 0) < -0.9 for p, q in pr):
            raise Rejected()
        if dt != torch.float32:
            tol *= 8
    if m == "model_stock":
        b0 = base.double()
        fw = case["params"].get("filter_wise", False)
        rows = (lambda v: v.reshape(1, -1) if not fw or v.dim() == 1 else v.reshape(-1, v.shape[-1]))  # noqa: E731
        offs = [rows(x.double() - b0) for x in xs]
        n = len(offs)
        cs = 0
        for i in range(n):
            for j in range(i + 1, n):
                p = offs[i].norm(dim=-1) * offs[j].norm(dim=-1)
                cs = cs + torch.where(p > 0, (offs[i] * offs[j]).sum(-1) / p.clamp(min=1e-9), torch.zeros_like(p))
        den = float((1 + (n - 1) * cs / (n * (n - 1) / 2)).abs().min())
        if den < 0.05:
            raise Rejected()
        tol /= den * den
    err = float((a.double() - b.double()).abs().max())
    require(err <= tol, "%s: result depends on the order the models are listed in: %s vs %s", m, describe(a), describe(b))
    ctx.label(m, case["dtype"], f"n={case['n']}")
    ctx.interesting(prod(case["shape"]) > 1 and (case["perm"] != list(range(case["n"])) or case["at"] != case["at2"]))


@st.composite
def crops(draw):
    c = draw(cases(RECTIFY))
    c["shape"] = draw(shapes(2, 2, 6))
    k = c["n"] + (1 if c["base"] else 0)
    c["grow"] = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0, 0, 1])), min_size=k, max_size=k))
    c["kind"] = "cluster"
    return c


def crop(case, ctx):
    """Embeddings of different sizes merge as their common part."""
    dt = DTYPES[case["dtype"]]
    base, xs = tensors(case, dt)
    ts, ps, b, _ = listed(base, xs, case["tparams"], case["at"])
    big = []
    for t, (r, c) in zip(ts, case["grow"]):
        y = make([t.shape[0] + r, t.shape[1] + c], case["seed"] + 77, "normal", dt)
        y[:t.shape[0], :t.shape[1]] = t
        big.append(y)
    lim = [min(y.shape[0] for y in big), min(y.shape[1] for y in big)]
    small = [y[:lim[0], :lim[1]].contiguous() for y in big]
    torch.manual_seed(0)
    got = run_method(case["method"], [y.clone() for y in big], b, case["params"], ps, embed=True)
    torch.manual_seed(0)
    want = run_method(case["method"], small, b, case["params"], ps, embed=True)
    require(got.shape == want.shape, "%s: embeddings %s merged to shape %s, common part is %s", case["method"], [tuple(y.shape) for y in big],
            tuple(got.shape), tuple(lim))
    err = float((got.double() - want.double()).abs().max())
    sc = sum(float(y.double().abs().max()) for y in small)
    if case["method"] == "arcee_fusion":
        # a threshold decided by rounding may flip single elements; the common part is still base or model
        ok = torch.minimum((got.double() - small[0].double()).abs(), (got.double() - small[1].double()).abs()) <= 8 * refs.EPS[dt] * sc
        require(bool(ok.all()), "arcee_fusion of embeddings of different sizes is neither base nor model: %s", describe(got))
    else:
        require(err <= 32 * refs.EPS[dt] * sc + 1e-3 * sc * (case["method"] == "karcher"), "%s: embeddings of different sizes merge differently from their common part: %s vs %s",
                case["method"], describe(got), describe(want))
    ctx.label(case["method"])
    ctx.interesting(any(tuple(y.shape) != tuple(lim) for y in big))


@st.composite
def wrongs(draw):
    m = draw(st.sampled_from(["slerp", "arcee_fusion", "nearswap", "nuslerp", "passthrough", "model_stock"]))
    bad = {"slerp": [3, 4], "arcee_fusion": [3, 4], "nearswap": [3, 4], "nuslerp": [3, 4], "passthrough": [2, 3], "model_stock": [2]}[m]
    n = draw(st.sampled_from(bad))
    return {"method": m, "n": n, "base": m not in ("passthrough",) and (m != "nuslerp" or n == 4 or draw(st.booleans())), "shape": draw(shapes(1, 2, 4)), "seed": draw(seeds)}


def wrong_count(case, ctx):
    xs = [make(case["shape"], case["seed"] + i) for i in range(case["n"])]
    m = case["method"]
    if m == "nuslerp" and case["n"] == 3 and case["base"]:
        case["base"] = False
    tp = [{"weight": 1.0} for _ in xs]
    try:
        out = run_method(m, xs, 0 if case["base"] else None, {"t": 0.5} if m in ("slerp", "nearswap") else {}, tp)
    except Exception:  # noqa: BLE001
        ctx.label(m)
        ctx.interesting()
        return
    require(False, "%s accepted %d models and returned %s", m, case["n"], describe(out))


def shared(case, ctx):
    """Two output tensors merged from the very same inputs (a repeated layer) are equal."""
    from mergekit.architecture import WeightInfo
    from mergekit.common import ImmutableMap
    from mergekit.graph import Executor
    from mergekit.merge_methods.base import TensorDictWrapper

    dt = DTYPES[case["dtype"]]
    base, xs = tensors(case, dt)
    if case["method"] in RANDOM:
        case = dict(case, tparams=[{k: v for k, v in t.items() if k != "density"} for t in case["tparams"]])
    if undefined(case, base, xs):
        raise Rejected()
    ts, ps, b, _ = listed(base, xs, case["tparams"], case["at"])
    meth = methods.get_method(case["method"])
    ms = methods.refs(len(ts))
    g = {p.name: case["params"].get(p.name, p.default_value) for p in meth.parameters()}
    tp = {r: ImmutableMap(data={p.name: ps[i].get(p.name, p.default_value) for p in meth.tensor_parameters()}) for i, r in enumerate(ms)}
    cls = methods._const_cls()
    methods._STORE.clear()
    for i, t in enumerate(ts):
        methods._STORE[i] = t
    gather = TensorDictWrapper(tensors=ImmutableMap(data={r: cls(slot=i) for i, r in enumerate(ms)}))
    # a multiple of the global parameters makes the second task a different one on the same inputs
    tasks = []
    for nm in ("w1", "w2"):
        tasks.append(meth.make_task(output_weight=WeightInfo(name=nm), tensors=gather, parameters=ImmutableMap(data=dict(g)),
                                    tensor_parameters=ImmutableMap(data=tp), base_model=ms[b] if b is not None else None))
    try:
        res = {i: v for i, (_t, v) in enumerate(Executor(tasks).run(quiet=True))}
    finally:
        methods._STORE.clear()
    ctx.label(case["method"])
    ctx.interesting(len(res) > 1)
    vals = list(res.values())
    for v in vals[1:]:
        require(same(v, vals[0]), "%s: two outputs from the same inputs differ: %s vs %s", case["method"], describe(vals[0]), describe(v))
    alone = go(case, base, xs, case["at"])
    require(same(vals[0], alone), "%s: an output sharing its inputs with another one differs from merging it alone: %s vs %s", case["method"],
            describe(vals[0]), describe(alone))



TESTS = [
    Test("pure", cases, pure, quick=1800, thorough=60000, shards=3,
         rule="all methods, parameters, dtypes and input kinds: shape, type, finiteness, repeatability, inputs untouched; non-trivial = differing inputs of more than one element"),
    Test("identity", idents, identity, quick=900, thorough=30000, shards=1, rule="equal models; non-trivial = at least two tensors"),
    Test("permutation", perms, permutation, quick=900, thorough=30000, shards=2, rule="models and base listed in another order; non-trivial = the order really differs"),
    Test("crop", crops, crop, quick=500, thorough=15000, rule="embedding sizes differ; non-trivial = some tensor larger than the common part"),
    Test("wrong_count", wrongs, wrong_count, quick=150, thorough=1500, rule="unsupported numbers of models are rejected; all cases count"),
    Test("shared", cases, shared, quick=500, thorough=10000, rule="two outputs planned on the same inputs; non-trivial = the engine ran both as separate tasks"),
]
