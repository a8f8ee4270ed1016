"""C06: every parameter used is the one the documented precedence selects."""
import os

import torch
from hypothesis import strategies as st

from vp.core import Test, require
from vp.models import merge, read_model, split_table, tensor_table, write_model

PROPERTY = "C06"
ASSUMPTIONS = ["a model appears at most once among the sources of one slice",
               "filters are plain substrings (or '*'), as documented"]

VALUES = st.one_of(
    st.sampled_from([0.0, 1.0, 0.5, -1.0, 2.0, 0.25]),
    st.floats(-4, 4, allow_nan=False, width=32),
)
FILTERS = ["self_attn", "mlp", "layernorm", "q_proj", "down_proj", "embed", "lm_head", "norm", "layers.1", "layers.0.",
           "weight", "*", None, "nothing-matches", "model.layers", "up_proj.weight"]


def scalar_or_gradient():
    return st.one_of(VALUES, VALUES, st.lists(VALUES, min_size=1, max_size=5))


def conditional():
    return st.tuples(st.sampled_from(FILTERS), scalar_or_gradient()).map(
        lambda p: {"value": p[1]} if p[0] is None else {"filter": p[0], "value": p[1]})


def setting():
    return st.one_of(scalar_or_gradient(), scalar_or_gradient(),
                     st.lists(conditional(), min_size=1, max_size=4), conditional())


# ---------------------------------------------------------------- reference
def lerp(xs, num, den):
    """Value at position num/den along the piecewise linear curve through xs."""
    if len(xs) == 1:
        return xs[0]
    segs = len(xs) - 1
    i, r = divmod(num * segs, den)
    if r == 0:
        return xs[i]
    f = r / den
    return xs[i] * (1 - f) + xs[i + 1] * f


def ref_eval(name, s, pos):
    if isinstance(s, dict):
        s = [s]
    if isinstance(s, list):
        if not isinstance(s[0], dict):
            return lerp(s, *pos)
        for c in s:
            f = c.get("filter")
            if f is None or f == "*" or (name and f in name):
                return ref_eval(name, c["value"], pos)
        return None
    return s


def ref_param(levels, name, pos):
    """levels: settings from most to least specific (None where absent)."""
    for s in levels:
        if s is None:
            continue
        v = ref_eval(name, s, pos)
        if v is not None:
            return v
    return None


def near(a, b):
    return a is not None and b is not None and abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(b)) + 1e-12


# ---------------------------------------------------------------- test 1: reader API
@st.composite
def lookups(draw):
    lv = {k: draw(st.none() | setting()) for k in ("src0", "src1", "slice", "module", "global")}
    den = draw(st.integers(1, 7))
    return {"levels": lv, "pos": [draw(st.integers(0, den)), den],
            "style": draw(st.sampled_from(["slices", "module-slices", "none"])),
            "other": draw(st.booleans()), "names": draw(st.sampled_from([["a", "b"], ["a", "b"], ["a", "a+b"], ["a+b", "a+c"], ["a+b", "a"]])),
            "base": draw(st.sampled_from([None, None, "a", "b", "a+b", "c"])), "slice_base": draw(st.sampled_from([None, None, "a", "b", "a+b", "c"])),
            "name": draw(st.sampled_from(list(tensor_table("llama", {})) + [None])),
            "default": draw(st.sampled_from([None, 0.125])), "required": draw(st.booleans())}


def reader(case, ctx):
    from mergekit.common import ModelReference
    from mergekit.config import ConfigReader, MergeConfiguration, OutputModuleDefinition, OutputSliceDefinition

    lv = case["levels"]

    def params(s):
        d = {}
        if s is not None:
            d["p"] = s
        if case["other"]:
            d["q"] = 77.0
        return d or None

    ma, mb = case["names"]
    sl = {"sources": [{"model": ma, "layer_range": [0, 2], "parameters": params(lv["src0"])},
                      {"model": mb, "layer_range": [0, 2], "parameters": params(lv["src1"])}],
          "parameters": params(lv["slice"]), "base_model": case["slice_base"]}
    module = {"slices": [sl], "parameters": params(lv["module"])}
    top = {"merge_method": "linear", "parameters": params(lv["global"]), "base_model": case["base"]}
    style = case["style"]
    top.update({"slices": [sl]} if style == "slices" else {"modules": {"default": module}})
    cfg = MergeConfiguration.model_validate(top)
    kw = {}
    if style != "none":
        kw["slice_out"] = OutputSliceDefinition.model_validate(sl)
    if style == "module-slices":
        kw["module"] = OutputModuleDefinition.model_validate(module)
    num, den = case["pos"]
    r = ConfigReader(config=cfg, t=num / den, tensor_name=case["name"], **kw)
    want = (case["slice_base"] if style != "none" else None) or case["base"]
    require(r.base_model == (ModelReference.parse(want) if want else None), "base model is %s; the slice says %s, the recipe %s", r.base_model,
            case["slice_base"] if style != "none" else None, case["base"])
    for model, src in ((ma, "src0"), (mb, "src1"), (None, None)):
        chain = []
        if style != "none":
            if src:
                chain.append(lv[src])
            chain.append(lv["slice"])
        if style == "module-slices":
            chain.append(lv["module"])
        chain.append(lv["global"])
        want = ref_param(chain, case["name"], (num, den))
        ctx.interesting(sum(s is not None for s in chain) > 1)
        ctx.label("resolved" if want is not None else "unset")
        mref = ModelReference.parse(model) if model else None
        if want is None and case["required"]:
            try:
                got = r.parameter("p", model=mref, default=case["default"], required=True)
            except Exception:
                continue
            require(False, "required parameter without a value resolved to %r", got)
        got = r.parameter("p", model=mref, default=case["default"], required=case["required"])
        if want is None:
            require(got == case["default"], "unset parameter resolved to %r, default %r", got, case["default"])
        elif not near(got, want):
            require(False, "parameter for model %s tensor %s at %s/%s: %r, documented %r", model, case["name"], num, den,
                    got, want)


# ---------------------------------------------------------------- test 2: real merges
# Model k is 1 at element k of every tensor and 0 elsewhere, base is 0, so the
# merged tensor shows directly which values were used.
D = {"hidden": 4, "inter": 6, "heads": 2, "kv": 2, "vocab": 6}
MODEL_LAYERS = 4
_DIR = {}


def prepare():
    import tempfile

    root = tempfile.mkdtemp(prefix="vp-c06-models-")
    import atexit
    import shutil

    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(root, ignore_errors=True))
    d = dict(D, layers=MODEL_LAYERS)
    for k in range(4):
        sd = {}
        for n, s in tensor_table("llama", d).items():
            t = torch.zeros(s)
            if k < 3:
                t.view(-1)[k] = 1.0
            sd[n] = t
        _DIR[k] = write_model(os.path.join(root, f"m{k}"), "llama", d, sd)
    out = os.path.join(root, "warm")
    merge({"models": [{"model": _DIR[0], "parameters": {"weight": 1}}], "merge_method": "linear"}, out)


@st.composite
def recipes(draw):
    style = draw(st.sampled_from(["models", "slices", "module-models", "module-slices"]))
    method = draw(st.sampled_from(["linear", "task_arithmetic", "task_arithmetic", "ties"]))
    n = draw(st.integers(1, 3))
    params = ["weight"] + ([] if method == "linear" else ["lambda"])
    # model-level settings (index: slice, model)
    n_slices = draw(st.integers(1, 3)) if "slices" in style else 1
    slices = []
    for _ in range(n_slices):
        ln = draw(st.integers(1, MODEL_LAYERS)) if "slices" in style else MODEL_LAYERS
        slices.append({
            "len": ln,
            "start": [draw(st.integers(0, MODEL_LAYERS - ln)) for _ in range(n + 1)],
            "src": [draw(st.none() | setting()) for _ in range(n)],
            "slice": {p: draw(st.none() | setting()) for p in params},
        })
    return {
        "style": style, "method": method, "n": n, "slices": slices,
        "module": {p: draw(st.none() | setting()) for p in params},
        "global": {p: draw(st.none() | setting()) for p in params},
        "flags": {"normalize": draw(st.sampled_from([None, [{"filter": "mlp", "value": 1.0}, {"value": 0.0}], 0.0,
                                                     [{"filter": "q_proj", "value": 1}, {"filter": "*", "value": 0}]]))},
        "strict": draw(st.booleans()),
    }


def clean(d):
    return {k: v for k, v in d.items() if v is not None} or None


def e2e(case, ctx):
    style, method, n = case["style"], case["method"], case["n"]
    sliced = "slices" in style
    moduled = style.startswith("module")
    gp = dict(case["global"])
    gp.update(case["flags"])
    if not case["strict"] and gp["weight"] is None:
        gp["weight"] = 0.375
    if method == "ties":
        gp["density"] = 1.0
    base = method != "linear"
    body = {}
    if sliced:
        body["slices"] = []
        for s in case["slices"]:
            src = [{"model": _DIR[k], "layer_range": [s["start"][k], s["start"][k] + s["len"]],
                    "parameters": clean({"weight": s["src"][k]})} for k in range(n)]
            if base:
                src.append({"model": _DIR[3], "layer_range": [s["start"][n], s["start"][n] + s["len"]]})
            body["slices"].append({"sources": src, "parameters": clean(s["slice"])})
    else:
        body["models"] = [{"model": _DIR[k], "parameters": clean({"weight": case["slices"][0]["src"][k]})}
                          for k in range(n)]
    if moduled:
        body = {"modules": {"default": dict(body, parameters=clean(case["module"]))}}
    cfg = dict(body, merge_method=method, parameters=clean(gp))
    if base:
        cfg["base_model"] = _DIR[3]
    # reference values
    pre, fmt, layer, post = split_table("llama", D)
    jobs = []  # (output name, source names per model, slice, position)
    for w in pre:
        jobs.append((w, [w] * n, case["slices"][0], (0, 1)))
    idx = 0
    for s in case["slices"]:
        for j in range(s["len"]):
            for w in layer:
                names = [fmt.format(s["start"][k] + j if sliced else j) + w for k in range(n)]
                pos = (j, s["len"] - 1) if s["len"] > 1 else (1, 1)
                jobs.append((fmt.format(idx) + w, names, s, pos))
            idx += 1
    for w in post:
        jobs.append((w, [w] * n, case["slices"][-1], (0, 1)))
    expect = {}
    missing = False
    for out_name, names, s, pos in jobs:
        ws = []
        for k in range(n):
            chain = [s["src"][k]] + ([s["slice"]["weight"]] if sliced else []) + (
                [case["module"]["weight"]] if moduled else []) + [gp["weight"]]
            v = ref_param(chain, names[k], pos)
            missing |= v is None
            ws.append(v)

        def glob(p):
            chain = ([s["slice"].get(p)] if sliced and p in s["slice"] else []) + (
                [case["module"].get(p)] if moduled else []) + [gp.get(p)]
            return ref_param(chain, out_name, pos)

        lam = glob("lambda") if base else None
        norm = glob("normalize")
        if norm is None:
            norm = {"linear": True, "ties": True, "task_arithmetic": False}[method]
        expect[out_name] = (ws, 1.0 if lam is None else lam, bool(norm))
    out = os.path.join(ctx.tmp(), "out")
    if missing:
        ctx.label("missing-required")
        try:
            merge(cfg, out)
        except Exception:
            return
        require(False, "a required parameter without a value did not fail the merge")
    merge(cfg, out)
    got = read_model(out)
    require(set(got) == set(expect), "output tensors differ: %s", sorted(set(got) ^ set(expect))[:5])
    levels = sum(v is not None for v in [case["global"]["weight"], case["module"]["weight"] if moduled else None,
                                         case["slices"][0]["slice"]["weight"] if sliced else None,
                                         case["slices"][0]["src"][0]])
    ctx.interesting(levels >= 2 or len(case["slices"]) > 1)
    ctx.label(style, method)
    for name, (ws, lam, norm) in expect.items():
        if norm and method != "ties" and abs(sum(ws)) < 1e-3:
            continue  # weights cancel: normalization undefined
        t = got[name].view(-1)
        vals = t[:n].double().tolist()
        require(not bool(t[n:].any()), "tensor %s has values no model supplies", name)
        for k in range(n):
            w = ws[k]
            if method == "linear":
                total = sum(float(torch.tensor(x)) for x in ws)
                want = w / total if norm else w
            elif method == "task_arithmetic":
                total = sum(ws)
                want = lam * (w / total if norm else w)
            else:  # ties: element k differs only in model k
                # a negatively weighted difference is elected negative
                want = lam * (1.0 if norm else w) if w != 0 else 0.0
                if norm and abs(w) < 1e-6 and w != 0:
                    continue
            tol = 2e-5 * (1 + abs(want)) * (1 if not norm else max(1.0, sum(map(abs, ws)) / max(abs(sum(ws)), 1e-3)))
            require(abs(vals[k] - want) <= tol, "tensor %s: model %d entered with %r, documented %r (weights %r, lambda "
                    "%r, normalize %r)", name, k, vals[k], want, ws, lam, norm)


TESTS = [
    Test("reader", lookups, reader, quick=6000, thorough=100000, shards=4, budget=60,
         rule="settings (scalar, gradient, filtered list) drawn independently at source/slice/module/global level and "
              "looked up per model, tensor name and position; non-trivial = two or more levels set"),
    Test("e2e", recipes, e2e, quick=500, thorough=8000, shards=8, budget=60,
         rule="merges over indicator models whose output reveals the value used for each tensor and model; "
              "non-trivial = weight set on two or more levels, or several slices"),
]
