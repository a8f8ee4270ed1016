"""C24: evolved genotypes map to the merge recipe they encode."""
import json
import math
import os

import numpy as np
import torch
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import describe, maxdiff, same
from vp.models import merge, read_model, state, tensor_table, write_model

PROPERTY = "C24"
LEVEL = "sampling"
TECHNIQUE = ("property-based testing: generated genome definitions and vectors; the recipe returned is interpreted layer by layer and tensor by tensor and compared with "
             "an independent reading of the vector, and merges of it with merges of explicitly written recipes")
ASSUMPTIONS = [
    "all models of a genome have the same number of layers",
    "vectors whose best two values tie within a layer group may pick either model",
]

PARAMS = {"linear": ["weight"], "task_arithmetic": ["weight"], "ties": ["weight", "density"], "dare_ties": ["weight", "density"], "slerp": ["t"]}
FILTERS = ["self_attn", "mlp", "q_proj", "norm", "model.layers", "embed", "*", "nothing", "layers.1"]
NAMES = ["model.embed_tokens.weight", "model.layers.{}.self_attn.q_proj.weight", "model.layers.{}.mlp.up_proj.weight", "model.layers.{}.input_layernorm.weight", "lm_head.weight"]
values = st.one_of(st.sampled_from([0.0, 0.25, 0.5, 1.0, -0.5, -1.0, 2.0, 1.5, -3.0, 0.1]), st.floats(-4, 4, allow_nan=False, width=32))


@st.composite
def definitions(draw, max_layers=12):
    method = draw(st.sampled_from(list(PARAMS)))
    layers = draw(st.integers(1, max_layers))
    n = draw(st.integers(2 if method == "slerp" else 1, 4))
    smooth = method != "slerp" and draw(st.integers(0, 2)) == 0
    filters = [] if method == "slerp" else draw(st.lists(st.sampled_from(FILTERS), max_size=3, unique=True))
    base = None
    if method in ("ties", "dare_ties", "task_arithmetic") or draw(st.booleans()):
        base = draw(st.integers(0, n))
    return {"method": method, "layers": layers, "n": n, "smooth": smooth, "filters": filters if filters or draw(st.booleans()) else None, "base": base,
            "gran": draw(st.sampled_from([0, 0, -1] + [g for g in range(1, layers + 1) if layers % g == 0] * 2)),
            "negative": draw(st.booleans()), "normalize": draw(st.sampled_from([None, True, False])),
            "tok": draw(st.sampled_from([None, None, "union"] + (["base"] if base is not None else [])))}


def shape_of(d):
    return (d["layers"] // d["gran"] if d["gran"] > 0 else 1, d["n"], len(d["filters"] or []) + 1, len(PARAMS[d["method"]]))


@st.composite
def vectors(draw, d):
    k = math.prod(shape_of(d))
    return [float(x) for x in draw(st.lists(values, min_size=k, max_size=k))]


@st.composite
def cases(draw):
    d = draw(definitions())
    return {"d": d, "x": draw(vectors(d)), "form": draw(st.sampled_from(["1d", "4d", "np1", "np4", "f64"])), "arch": draw(st.sampled_from(["llama", "llama", "gpt2"])),
            "bad": draw(st.sampled_from(["plus", "minus", "double", "groups", "models", "sets", "params", "3d"])), "poke": draw(st.integers(0, 10**6))}


def genome(d, paths):
    from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition

    spec = {"models": paths[:d["n"]], "merge_method": d["method"], "layer_granularity": d["gran"], "allow_negative_weights": d["negative"], "smooth": d["smooth"]}
    if d["base"] is not None:
        spec["base_model"] = paths[d["base"]]
    for k, v in (("normalize", d["normalize"]), ("filters", d["filters"]), ("tokenizer_source", d["tok"])):
        if v is not None:
            spec[k] = v
    return ModelGenome(ModelGenomeDefinition.model_validate(spec))


def encode(d, x, form):
    if form == "1d":
        return torch.tensor(x)
    if form == "4d":
        return torch.tensor(x).view(shape_of(d))
    if form == "np1":
        return np.array(x)
    if form == "np4":
        return np.array(x, dtype=np.float32).reshape(shape_of(d))
    return torch.tensor(x, dtype=torch.float64).view(shape_of(d))


def set_of(d, name):
    for i, f in enumerate(d["filters"] or []):
        if f == "*" or f in name:
            return i
    return len(d["filters"] or [])


def prepared(d, x):
    """value[group][model][set][param] as the definition says to use it"""
    v = np.array(x, dtype=np.float64).reshape(shape_of(d))
    v = v.astype(np.float32).astype(np.float64)
    if not d["negative"]:
        v = v.copy()
        v[..., 0] = np.abs(v[..., 0])
    for i, p in enumerate(PARAMS[d["method"]]):
        if p == "density":
            v[..., i] = np.clip(np.abs(v[..., i]), 0, 1)
    return v


def meant(d, v, name, layer, model, param):
    """Value of a parameter of a model for a tensor; layer None is before, 'end' after the layers."""
    p = PARAMS[d["method"]].index(param)
    s = set_of(d, name)
    g, L = v.shape[0], d["layers"]
    if d["smooth"]:
        t = 0.0 if layer is None else 1.0 if layer == "end" else (layer / (L - 1) if L > 1 else 0.0)
        at = t * (g - 1)
        lo = min(int(math.floor(at + 1e-9)), g - 1)
        hi = min(lo + 1, g - 1)
        fr = max(at - lo, 0.0)
        return (1 - fr) * v[lo, model, s, p] + fr * v[hi, model, s, p]
    i = 0 if layer is None else g - 1 if layer == "end" else layer * g // L
    return v[i, model, s, p]


def setting(name, v, t):
    """Meaning of a parameter in a recipe, as its documentation has it."""
    if v is None or isinstance(v, (int, float, bool, str)):
        return v
    if isinstance(v, dict):
        v = [v]
    if isinstance(v[0], dict):
        for c in v:
            if c.get("filter") in (None, "*") or c["filter"] in name:
                return setting(name, c["value"], t)
        return None
    at = t * (len(v) - 1)
    lo = min(int(math.floor(at + 1e-9)), len(v) - 1)
    hi = min(lo + 1, len(v) - 1)
    return (1 - (at - lo)) * v[lo] + (at - lo) * v[hi]


def path_of(ref):
    if isinstance(ref, str):
        return ref
    return ref["model"]["path"] if isinstance(ref["model"], dict) else ref["model"]


def interpret(cfg, layers):
    """[(sources, parameters, base, t)] for before the layers, each layer, and after."""
    rows = []
    if cfg.get("models"):
        src = [(path_of(m["model"]), m.get("parameters") or {}) for m in cfg["models"]]
        for i in range(layers):
            rows.append((src, {}, None, i / (layers - 1) if layers > 1 else 0.0))
        rows = [(src, {}, None, 0.0)] + rows + [(src, {}, None, 1.0)]
        return rows
    at = 0
    for s in cfg["slices"]:
        rng = {tuple(x["layer_range"]) for x in s["sources"]}
        require(len(rng) == 1, "sources of one slice cover different layers: %s", sorted(rng))
        lo, hi = rng.pop()
        require(lo == at and hi > lo, "slices do not cover the layers in order: %s after %d", (lo, hi), at)
        src = [(path_of(x["model"]), x.get("parameters") or {}) for x in s["sources"]]
        base = path_of(s["base_model"]) if s.get("base_model") else None
        n = hi - lo
        for i in range(n):
            rows.append((src, s.get("parameters") or {}, base, i / (n - 1) if n > 1 else 0.0))
        at = hi
    require(at == layers, "slices cover %d of %d layers", at, layers)
    first, last = rows[0], rows[-1]
    return [first[:3] + (0.0,)] + rows + [last[:3] + (1.0,)]


def recipe(case, ctx):
    from mergekit.config import MergeConfiguration

    d = case["d"]
    root = ctx.tmp()
    paths = []
    for i in range(d["n"] + 1):
        p = os.path.join(root, f"m{i}")
        os.makedirs(p)
        c = {"architectures": ["LlamaForCausalLM"], "model_type": "llama", "num_hidden_layers": d["layers"], "hidden_size": 8, "num_attention_heads": 2}
        if case["arch"] == "gpt2":
            c = {"architectures": ["GPT2LMHeadModel"], "model_type": "gpt2", "n_layer": d["layers"], "n_embd": 8, "n_head": 2}
        with open(os.path.join(p, "config.json"), "w") as f:
            json.dump(c, f)
        paths.append(p)
    g = genome(d, paths)
    x = encode(d, case["x"], case["form"])
    keep = x.copy() if isinstance(x, np.ndarray) else x.clone()
    cfg = g.genotype_merge_config(x)
    require(bool((x == keep).all()), "the vector was modified")
    require(isinstance(cfg, MergeConfiguration), "no merge configuration")
    again = g.genotype_merge_config(encode(d, case["x"], case["form"]))
    require(cfg == again, "the same vector gave two different recipes")
    back = MergeConfiguration.model_validate(__import__("yaml").safe_load(cfg.to_yaml()))
    require(back == cfg, "the recipe does not survive being written and read")
    dump = cfg.model_dump(mode="python")
    require(cfg.merge_method == d["method"], "wrong method %s", cfg.merge_method)
    require((path_of(dump["base_model"]) if dump["base_model"] else None) == (paths[d["base"]] if d["base"] is not None else None), "wrong base model")
    norm = d["normalize"] if d["normalize"] is not None else d["method"] in ("ties", "dare_ties", "linear")
    require(setting("", (dump["parameters"] or {}).get("normalize"), 0) == norm, "normalize should be %s", norm)
    require(dump["tokenizer_source"] == d["tok"], "tokenizer source should be %s", d["tok"])
    v = prepared(d, case["x"])
    rows = interpret(dump, d["layers"])
    close = lambda a, b: a is not None and abs(float(a) - float(b)) <= 1e-5 * (1 + abs(b))  # noqa: E731
    for ri, (src, params, base, t) in enumerate(rows):
        layer = None if ri == 0 else "end" if ri == len(rows) - 1 else ri - 1
        if d["method"] == "slerp":
            i = 0 if layer is None else v.shape[0] - 1 if layer == "end" else layer * v.shape[0] // d["layers"]
            col = v[i, :, 0, 0]
            require(len(src) == 2 and src[0][0] != src[1][0], "a slerp slice has sources %s", [s[0] for s in src])
            a, b = [paths.index(s[0]) for s in src]
            require(base in (src[0][0], src[1][0]), "base of a slerp slice is not one of its models")
            if base == src[1][0]:
                a, b = b, a
            top = sorted(col, reverse=True)
            require(col[a] == top[0] and col[b] == top[1], "layer %s: models %d and %d chosen, values are %s", layer, a, b, col.tolist())
            want = math.exp(col[b]) / (math.exp(col[a]) + math.exp(col[b]))
            got = setting("model.layers.0.mlp.up_proj.weight", params.get("t"), t)
            require(close(got, want), "layer %s: t is %s, should be %s", layer, got, want)
            continue
        seen = [s[0] for s in src]
        exp = paths[:d["n"]] + ([paths[d["base"]]] if d["base"] == d["n"] else [])
        require(sorted(seen) == sorted(exp), "layer %s is made of %s, expected %s", layer, seen, exp)
        for path, mine in src:
            m = paths.index(path)
            for tmpl in NAMES:
                inside = "{}" in tmpl
                if inside != isinstance(layer, int):
                    continue
                if tmpl.startswith("lm_head") != (layer == "end") and not inside:
                    continue
                name = tmpl.format(layer)
                for p in PARAMS[d["method"]]:
                    got = setting(name, mine.get(p), t)
                    if m == d["n"]:  # the base model has no values of its own and must not contribute
                        require(got in (None, 0, 0.0), "base model was given %s %s", p, got)
                        continue
                    want = meant(d, v, name, layer, m, p)
                    require(close(got, want), "%s of model %d for %s is %s, should be %s", p, m, name, got, want)
    arrays = g.genotype_to_param_arrays(encode(d, case["x"], case["form"]))
    require(sorted(float(y) for a in arrays.values() for y in a) == sorted(np.array(case["x"], dtype=np.float32).astype(float).tolist())
            or case["form"] in ("np1", "f64"), "the named parameters are not the values of the vector: %s", sorted(arrays))
    require(len(arrays) == d["n"] * shape_of(d)[2] * shape_of(d)[3], "named parameters are missing: %s", sorted(arrays))
    # initial vectors fit
    for random in (False, True):
        x0 = g.initial_genotype(random=random)
        require(tuple(x0.shape) == shape_of(d), "initial vector has shape %s, expected %s", tuple(x0.shape), shape_of(d))
        require(g.genotype_merge_config(x0.view(-1)) == g.genotype_merge_config(x0), "flattened and shaped vectors give different recipes")
    # vectors of the wrong size do not
    sh = list(shape_of(d))
    k = math.prod(sh)
    kind = case["bad"]
    if kind in ("plus", "minus", "double"):
        bad = torch.zeros({"plus": k + 1, "minus": k - 1, "double": 2 * k}[kind])
    elif kind == "3d":
        bad = torch.zeros(sh[:3])
    else:
        j = ["groups", "models", "sets", "params"].index(kind)
        sh[j] += 1 if case["poke"] % 2 or sh[j] == 1 else -1
        bad = torch.zeros(sh)
    if tuple(bad.shape) != shape_of(d):
        try:
            wrong = g.genotype_merge_config(bad)
        except Exception:  # noqa: BLE001
            wrong = None
        require(wrong is None, "a vector of shape %s was accepted for %s", tuple(bad.shape), shape_of(d))
    ctx.label(d["method"], "smooth" if d["smooth"] else "discrete", f"groups={min(v.shape[0], 3)}", "filters" if d["filters"] else "plain", "base apart" if d["base"] == d["n"] else "", case["form"])
    ctx.interesting(len(set(case["x"])) > 1)


# ---------------------------------------------------------------- merges of the recipe
@st.composite
def merges(draw):
    d = draw(definitions(max_layers=4))
    d["gran"] = d["gran"] if d["gran"] >= 0 else 0
    d["tok"] = None
    x = draw(vectors(d))
    x = [round(v * 8) / 8 for v in x]
    if len(PARAMS[d["method"]]) > 1:  # densities that leave something of every tensor, and are not random
        x[1::2] = [draw(st.sampled_from([0.5, 0.75, 1.0, 1.5, -0.75])) if d["method"] == "ties" else 1.0 for _ in x[1::2]]
    if d["method"] == "linear":  # weights that can be normalized
        d["negative"] = d["negative"] and draw(st.booleans())
        x = [v or 0.5 for v in x]
    return {"d": d, "x": x, "seed": draw(st.integers(0, 10**6))}


def explicit(d, v, paths, dims):
    """The recipe spelled out tensor by tensor."""
    names = list(tensor_table("llama", dims))
    layers = d["layers"]
    c = {"merge_method": d["method"], "dtype": "bfloat16", "slices": [], "parameters": {"int8_mask": True, "normalize": d["normalize"] if d["normalize"] is not None else d["method"] in ("ties", "dare_ties", "linear")}}
    if d["base"] is not None:
        c["base_model"] = paths[d["base"]]
    for L in range(layers):
        mine = [n for n in names if n.startswith(f"model.layers.{L}.")] + ([n for n in names if "embed" in n] if L == 0 else []) + (
            [n for n in names if n in ("model.norm.weight", "lm_head.weight")] if L == layers - 1 else [])
        if d["method"] == "slerp":
            col = v[L * v.shape[0] // layers, :, 0, 0]
            a, b = np.argsort(-col, kind="stable")[:2]
            t = torch.softmax(torch.tensor([col[a], col[b]], dtype=torch.float32), -1)[1].item()
            c["slices"].append({"base_model": paths[a], "parameters": {"t": t}, "sources": [{"model": paths[i], "layer_range": [L, L + 1]} for i in (a, b)]})
            continue
        sources = []
        for m in range(d["n"]):
            ps = {}
            for p in PARAMS[d["method"]]:
                ps[p] = [{"filter": n, "value": float(meant(d, v, n, None if "embed" in n else "end" if n in ("model.norm.weight", "lm_head.weight") else L, m, p))} for n in mine]
            sources.append({"model": paths[m], "layer_range": [L, L + 1], "parameters": ps})
        if d["base"] == d["n"] and d["method"] != "linear":
            sources.append({"model": paths[d["n"]], "layer_range": [L, L + 1]})
        c["slices"].append({"sources": sources})
    return c


def merged(case, ctx):
    d = case["d"]
    v = prepared(d, case["x"])
    if d["method"] == "slerp":
        for i in range(v.shape[0]):
            s = sorted(v[i, :, 0, 0], reverse=True)
            if s[0] == s[1] or len(s) > 2 and s[1] == s[2]:
                raise Rejected()
    dims = {"hidden": 4, "inter": 6, "heads": 2, "kv": 1, "vocab": 8, "layers": d["layers"]}
    if "density" in PARAMS[d["method"]] and float(v[..., 1].min()) < 0.3:
        raise Rejected()  # nothing would be left of the smallest tensors, which is refused
    if d["method"] == "dare_ties" and float(v[..., 1].min()) < 1:
        raise Rejected()  # random
    root = ctx.tmp()
    paths = []
    for i in range(d["n"] + 1):
        p = os.path.join(root, f"m{i}")
        write_model(p, "llama", dims, state("llama", dims, case["seed"] + i))
        paths.append(p)
    weights_ok = True
    if d["method"] == "linear":
        w = v[..., 0].sum(axis=1)
        weights_ok = bool((np.abs(w) > 0.3).all()) and (not d["smooth"] or bool((v[..., 0] >= 0).all()))
        if not weights_ok:
            raise Rejected()
    cfg = genome(d, paths).genotype_merge_config(encode(d, case["x"], "1d"))
    a, b = os.path.join(root, "a"), os.path.join(root, "b")
    merge(cfg.model_dump(mode="python"), a)
    merge(explicit(d, v, paths, dims), b)
    ta, tb = read_model(a), read_model(b)
    require(set(ta) == set(tb), "tensors differ: %s", sorted(set(ta) ^ set(tb))[:4])
    for n in tb:
        if same(ta[n], tb[n]) or d["smooth"] and v.shape[0] > 1 and n in ("model.norm.weight", "lm_head.weight"):
            continue  # where along the interpolation the weights after the layers lie is not stated
        # interpolated values may differ in the last bit; so then may elements at a sign election
        ok = (ta[n].double() - tb[n].double()).abs() <= 0.02 * (1 + tb[n].double().abs())
        require(d["smooth"] and float(ok.double().mean()) > 0.95, "%s: genome gives %s, explicit recipe %s (off by %s)", n, describe(ta[n]), describe(tb[n]), maxdiff(ta[n], tb[n]))
    ctx.label(d["method"], "smooth" if d["smooth"] else "discrete", "filters" if d["filters"] else "plain")
    ctx.interesting(len(set(case["x"])) > 1)


# ---------------------------------------------------------------- definitions that cannot work
@st.composite
def invalid(draw):
    return {"kind": draw(st.sampled_from(["method", "base", "slerp-smooth", "slerp-filters", "granularity"])), "m": draw(st.sampled_from(["ties", "dare_ties", "task_arithmetic"])),
            "layers": draw(st.integers(2, 12)), "gran": draw(st.integers(2, 16)), "name": draw(st.sampled_from(["passthrough", "model_stock", "della", "nope", ""]))}


def refused(case, ctx):
    root = ctx.tmp()
    with open(os.path.join(root, "config.json"), "w") as f:
        json.dump({"architectures": ["LlamaForCausalLM"], "model_type": "llama", "num_hidden_layers": case["layers"], "hidden_size": 8, "num_attention_heads": 2}, f)
    from mergekit.evo.genome import ModelGenome, ModelGenomeDefinition

    spec = {"models": [root, root + "/"], "merge_method": "linear"}
    k = case["kind"]
    if k == "method":
        spec["merge_method"] = case["name"]
    elif k == "base":
        spec["merge_method"] = case["m"]
    elif k == "slerp-smooth":
        spec.update(merge_method="slerp", smooth=True)
    elif k == "slerp-filters":
        spec.update(merge_method="slerp", filters=["mlp"])
    else:
        if case["layers"] % case["gran"] == 0:
            raise Rejected()
        spec["layer_granularity"] = case["gran"]
    try:
        ModelGenome(ModelGenomeDefinition.model_validate(spec))
    except Exception:  # noqa: BLE001
        ctx.label(k)
        ctx.interesting(True)
        return
    require(False, "a definition with an unusable %s was accepted: %s", k, spec)


def prepare():
    import transformers

    import mergekit.evo.genome  # noqa: F401

    getattr(transformers, "AutoConfig")


TESTS = [
    Test("recipe", cases, recipe, quick=1400, thorough=40000, shards=4, rule="the vector has different values at different positions"),
    Test("merged", merges, merged, quick=240, thorough=6000, shards=3, rule="the vector has different values at different positions"),
    Test("refused", invalid, refused, quick=80, thorough=400, rule="an unusable definition"),
]
