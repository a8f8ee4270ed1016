"""C28: the recipe-building command line tools merge exactly what their arguments say."""
import json
import os

import torch
import yaml
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import DTYPES, describe, same, seeds
from vp.models import config_json, merge, read_config, read_model, split_table, state, write_model

PROPERTY = "C28"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated command lines over tiny models; outputs of mergekit-layershuffle and bakllama traced "
             "tensor by tensor to the layers they must have come from, outputs of mergekit-legacy compared bit for bit with the "
             "merge configuration the arguments denote, layer proportions tested against the weights over many seeds")
ASSUMPTIONS = [
    "models of one command share architecture and sizes other than the layer count",
    "mergekit-layershuffle with fewer layers in a later model than in the first may fail when such a layer is drawn",
    "the proportions of models in mergekit-layershuffle are judged at a false alarm rate below 1e-9",
]

ARCHS = ["llama", "llama", "mistral", "qwen2", "gpt2"]
HEAD = {"llama": "lm_head.weight", "mistral": "lm_head.weight", "qwen2": "lm_head.weight", "gpt2": None}


def dims(layers):
    return {"hidden": 4, "inter": 6, "heads": 2, "kv": 1, "vocab": 7, "layers": layers}


def build(root, case):
    paths, states = [], []
    for i, m in enumerate(case["models"]):
        d = dims(m["layers"])
        sd = state(case["arch"], d, case["seed"] + 7 * i, "normal", m.get("dtype", "float32"))
        p = os.path.join(root, m.get("name", "m{}").format(i))
        write_model(p, case["arch"], d, sd, dtype=m.get("dtype", "float32"), fmt=m.get("fmt", "safetensors"), shards=m.get("shards", 1))
        paths.append(p)
        states.append(sd)
    return paths, states


def invoke(main, args):
    from click.testing import CliRunner

    from mergekit.io.tasks import LoaderCache

    LoaderCache().loaders.clear()
    return CliRunner().invoke(main, [str(a) for a in args], catch_exceptions=True)


def failed(res):
    return res.exception is not None and not (isinstance(res.exception, SystemExit) and res.exit_code == 0)


def must(res):
    if failed(res):
        require(False, "the tool failed: %s: %s", type(res.exception).__name__, str(res.exception)[:300] + (res.output or "")[-300:])


def expected(case, states, layers, first=None, last=None, dtype=None, scale=None):
    """Tensors of the model whose layers are [(model, layer)]."""
    first = layers[0][0] if first is None else first
    last = layers[-1][0] if last is None else last
    pre, fmt, names, post = split_table(case["arch"], dims(1))
    out = {n: states[first][n] for n in pre}
    for i, (m, l) in enumerate(layers):
        for n in names:
            t = states[m][fmt.format(l) + n]
            if scale and scale[i] is not None and "down_proj" in n:
                t = (t.to(DTYPES[dtype]) if dtype else t) * scale[i]
            out[fmt.format(i) + n] = t
    out.update({n: states[last][n] for n in post})
    return {n: t.to(DTYPES[dtype]) if dtype else t for n, t in out.items()}


def compare(got, want):
    require(set(got) == set(want), "output has the wrong tensors: %s", sorted(set(got) ^ set(want))[:6])
    for n, t in want.items():
        require(same(got[n], t), "%s is %s, expected %s", n, describe(got[n]), describe(t))


def layer_count(case, path):
    c = read_config(path)
    return c.get("n_layer", c.get("num_hidden_layers"))


# ---------------------------------------------------------------- bakllama

@st.composite
def bak_cases(draw):
    n = draw(st.integers(1, 3))
    case = {"arch": draw(st.sampled_from(ARCHS)), "seed": draw(seeds), "fp16": draw(st.booleans()), "clone": draw(st.booleans()),
            "models": [{"layers": draw(st.integers(1, 4)), "fmt": draw(st.sampled_from(["safetensors", "safetensors", "pickle"])),
                        "shards": draw(st.integers(1, 3)), "dtype": draw(st.sampled_from(["float32", "float32", "bfloat16"]))} for _ in range(n)],
            "slices": [], "embed": None, "head": None}
    for _ in range(draw(st.integers(1, 4))):
        m = draw(st.integers(0, n - 1))
        a = draw(st.integers(0, case["models"][m]["layers"] - 1))
        case["slices"].append([m, a, draw(st.integers(a + 1, case["models"][m]["layers"])),
                               draw(st.sampled_from([None, None, 0, 0.0, 0.5, 1, 2.0, -1.0]))])
    if draw(st.booleans()):
        case["embed"] = draw(st.integers(0, n - 1))
    if draw(st.booleans()):
        case["head"] = draw(st.integers(0, n - 1))
    return case


def bakllama(case, ctx):
    from mergekit.scripts.bakllama import main

    root = ctx.tmp()
    paths, states = build(root, case)
    cfg = {"layer_slices": []}
    layers, scale = [], []
    for m, a, b, s in case["slices"]:
        e = {"model": paths[m], "start": a, "end": b}
        if s is not None:
            e["scale"] = s
        cfg["layer_slices"].append(e)
        layers += [(m, l) for l in range(a, b)]
        scale += [s] * (b - a)
    if case["embed"] is not None:
        cfg["embedding_source"] = paths[case["embed"]]
    if case["head"] is not None:
        cfg["lm_head_source"] = paths[case["head"]]
    fn, out = os.path.join(root, "c.yml"), os.path.join(root, "out")
    with open(fn, "w") as f:
        yaml.safe_dump(cfg, f)
    args = [fn, out] + (["--fp16"] if case["fp16"] else []) + (["--clone-tensors"] if case["clone"] else [])
    must(invoke(main, args))
    want = expected(case, states, layers, case["embed"], None, "float16" if case["fp16"] else None, scale)
    got = read_model(out)
    head = HEAD[case["arch"]]
    if case["head"] is not None and head:
        # which model the final norm comes from is not specified
        hs = states[case["head"]][head]
        want[head] = hs.to(torch.float16) if case["fp16"] else hs
        for n in split_table(case["arch"], dims(1))[3]:
            if n != head and n in got:
                alts = [states[m][n].to(got[n].dtype) for m in (layers[-1][0], case["head"])]
                require(any(same(got[n], a) for a in alts), "%s is from neither the last layer's nor the head's model", n)
                want[n] = got[n]
    elif case["head"] is not None:
        for n in split_table(case["arch"], dims(1))[3]:
            want.pop(n), got.pop(n, None)
    compare(got, want)
    require(layer_count(case, out) == len(layers), "configuration says %s layers, output has %s", layer_count(case, out), len(layers))
    ctx.label(case["arch"], *(["scaled"] if any(s is not None for s in scale) else []), *(["sources"] if case["embed"] is not None or case["head"] is not None else []))
    ctx.interesting(len(case["slices"]) > 1)


# ---------------------------------------------------------------- layershuffle

@st.composite
def shuffle_cases(draw):
    n = draw(st.integers(1, 4))
    full = draw(st.booleans())
    k = draw(st.integers(1, 6))
    case = {"arch": draw(st.sampled_from(ARCHS)), "seed": draw(seeds), "full": full, "fp16": draw(st.booleans()),
            "models": [{"layers": draw(st.integers(1, 6)) if full else k + (draw(st.integers(0, 2)) if i else 0)} for i in range(n)],
            "weights": None, "rs": draw(st.one_of(st.none(), st.integers(0, 2**31 - 1))), "write": draw(st.booleans()), "print": draw(st.booleans()),
            "dry": draw(st.integers(0, 4)) == 0, "mixed": draw(st.booleans()), "miscount": draw(st.integers(0, 14)) == 0}
    if draw(st.integers(0, 3)):
        case["weights"] = [draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 0.75, 1.5] if full else [0.0, 0.2, 1.0, 3.0, 100.0])) for _ in range(n)]
        if not sum(case["weights"]):
            case["weights"][draw(st.integers(0, n - 1))] = 1.0
    return case


def shuffle_args(case, paths, out):
    args = [out]
    for i, p in enumerate(paths):
        args += ["-m" if i % 2 else "--model", p]
        if case["weights"] and case["mixed"]:
            args += ["--weight", case["weights"][i]]
    if case["weights"] and not case["mixed"]:
        for w in case["weights"]:
            args += ["-w", w]
    if case["full"]:
        args.append("--full-random")
    if case["fp16"]:
        args.append("--fp16")
    if case["rs"] is not None:
        args += ["--random-seed", case["rs"]]
    return args + ["--quiet"]


def recipe_layers(text, paths):
    """[(model, layer)] denoted by a written configuration."""
    cfg = yaml.safe_load(text)
    out = []
    for s in cfg["slices"]:
        require(len(s["sources"]) == 1, "a slice of the written recipe has %s sources", len(s["sources"]))
        src = s["sources"][0]
        a, b = src["layer_range"]
        m = src["model"]
        if isinstance(m, dict):
            m = m["model"]["path"] if isinstance(m.get("model"), dict) else m["model"]
        require(m in paths, "the written recipe names a model that was not given: %s", m)
        out += [(paths.index(m), l) for l in range(a, b)]
    require(cfg["merge_method"] == "passthrough", "merge method %s", cfg["merge_method"])
    return out, cfg


def judge(case, layers):
    n = len(case["models"])
    ws = case["weights"] or [1.0] * n
    if case["full"]:
        for m in range(n):
            mine = [l for i, l in layers if i == m]
            k = int(case["models"][m]["layers"] * ws[m])
            require(len(mine) == k, "model %s contributes %s layers, not %s of %s", m, len(mine), k, case["models"][m]["layers"])
            require(all(0 <= l < case["models"][m]["layers"] for l in mine), "layers %s of a model of %s layers", mine, case["models"][m]["layers"])
        return
    require(len(layers) == case["models"][0]["layers"], "%s layers in the output, %s in the first model", len(layers), case["models"][0]["layers"])
    for i, (m, l) in enumerate(layers):
        require(l == i, "layer %s comes from layer %s", i, l)
        require(ws[m] > 0, "layer %s comes from model %s, which has weight 0", i, m)


def trace(case, states, got):
    """Where each layer of an output came from, by its tensors."""
    _pre, fmt, names, _post = split_table(case["arch"], dims(1))
    out = []
    dt = torch.float16 if case["fp16"] else None
    while fmt.format(len(out)) + names[0] in got:
        i = len(out)
        # any tensor with distinct random content identifies its source
        key = names[-1] if "norm" not in names[-1] else names[1]
        t = got[fmt.format(i) + key]
        hits = [(m, l) for m, s in enumerate(states) for l in range(case["models"][m]["layers"])
                if same(s[fmt.format(l) + key].to(dt) if dt else s[fmt.format(l) + key], t)]
        require(len(hits) >= 1, "layer %s of the output is no layer of any model", i)
        out.append(hits[0])
    return out


def layershuffle(case, ctx):
    from mergekit.scripts.layershuffle import main

    root = ctx.tmp()
    paths, states = build(root, case)
    out, wy = os.path.join(root, "out"), os.path.join(root, "recipe.yml")
    args = shuffle_args(case, paths, out)
    n = len(paths)
    if case["miscount"] and case["weights"]:
        res = invoke(main, args + ["-w", 1.0])
        require(failed(res) and not os.path.exists(os.path.join(out, "config.json")), "more weights than models were accepted")
        ctx.label("miscount")
        return
    total = sum(int(m["layers"] * w) for m, w in zip(case["models"], case["weights"] or [1.0] * n)) if case["full"] else 1
    extra = (["--write-yaml", wy] if case["write"] else []) + (["--print-yaml"] if case["print"] else [])
    res = invoke(main, args + extra + (["--dry-run"] if case["dry"] else []))
    if not total:
        ctx.label("nothing selected")
        return
    must(res)
    texts = []
    if case["write"]:
        with open(wy) as f:
            texts.append(f.read())
    if case["print"]:
        texts.append(res.stdout)
    if case["dry"]:
        require(not os.path.exists(out) or not os.listdir(out), "a dry run wrote %s", os.path.exists(out) and os.listdir(out))
        for t in texts:
            judge(case, recipe_layers(t, paths)[0])
        ctx.label("dry run")
        return
    got = read_model(out)
    layers = trace(case, states, got)
    judge(case, layers)
    compare(got, expected(case, states, layers, dtype="float16" if case["fp16"] else None))
    require(layer_count(case, out) == len(layers), "configuration says %s layers, output has %s", layer_count(case, out), len(layers))
    for t in texts:
        said, cfg = recipe_layers(t, paths)
        require(said == layers, "the recipe says layers %s, the output has %s", said, layers)
        again = os.path.join(root, f"again{len(t)}")
        merge(cfg, again)
        compare(read_model(again), got)
    if case["rs"] is not None:
        res = invoke(main, shuffle_args(case, paths, os.path.join(root, "out2")))
        must(res)
        compare(read_model(os.path.join(root, "out2")), got)
    ctx.label("full random" if case["full"] else "in place", *(["seeded"] if case["rs"] is not None else []), *(["recipe"] if texts else []))
    ctx.interesting(len({m for m, _ in layers}) > 1 and bool(texts or case["rs"] is not None))


@st.composite
def share_cases(draw):
    n = draw(st.integers(2, 4))
    return {"layers": draw(st.integers(20, 60)), "seed": draw(st.integers(0, 10**6)), "full": draw(st.booleans()),
            "weights": [draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0, 5.0])) for _ in range(n - 1)] + [1.0]}


def shares(case, ctx):
    """Layers are drawn in proportion to the weights, and source layers evenly (recipes only: nothing is merged)."""
    from mergekit.scripts.layershuffle import main

    root = ctx.tmp()
    n, k, ws = len(case["weights"]), case["layers"], case["weights"]
    paths = []
    for i in range(n):
        p = os.path.join(root, f"m{i}")
        os.makedirs(p)
        with open(os.path.join(p, "config.json"), "w") as f:
            json.dump(config_json("llama", dims(k)), f)
        paths.append(p)
    rounds, counts, where, seen = 12, [0] * n, [0.0, 0], set()
    wy = os.path.join(root, "r.yml")
    for r in range(rounds):
        c = {"models": [{"layers": k}] * n, "weights": ws, "full": case["full"], "mixed": False, "fp16": False, "rs": case["seed"] + r}
        must(invoke(main, shuffle_args(c, paths, os.path.join(root, "out")) + ["--dry-run", "--write-yaml", wy]))
        with open(wy) as f:
            layers, _ = recipe_layers(f.read(), paths)
        judge(c, layers)
        seen.add(tuple(layers))
        for m, l in layers:
            counts[m] += 1
        if case["full"]:
            where[0] += sum(l for _m, l in layers)
            where[1] += len(layers)
    require(len(seen) > 1 or sum(w > 0 for w in ws) == 1, "every seed gives the same layers")
    if case["full"]:
        mean, want = where[0] / where[1], (k - 1) / 2
        dev = k * (0.5 * 21 / where[1]) ** 0.5  # Hoeffding, 2 exp(-21) < 1e-8
        require(abs(mean - want) <= dev, "source layers average %s of 0..%s over %s draws", mean, k - 1, where[1])
        order = [i for i, (m, _l) in enumerate(layers) if m == n - 1]
        require(len(layers) < 40 or sum(w > 0 for w in ws) == 1 or order != list(range(order[0], order[0] + len(order))), "layers of a model stay together")
    else:
        total = rounds * k
        for m in range(n):
            p = ws[m] / sum(ws)
            dev = total * (0.5 * 21 / total) ** 0.5
            require(abs(counts[m] - p * total) <= dev, "model %s of weight %s in %s gives %s of %s layers", m, ws[m], ws, counts[m], total)
    ctx.label("full random" if case["full"] else "in place")
    ctx.interesting(len({w for w in ws}) > 1)


# ---------------------------------------------------------------- legacy

LEGACY = {"ties": True, "linear": None, "task_arithmetic": True, "dare_ties": True, "dare_linear": True, "slerp": True, "breadcrumbs": True,
          "della": True}


@st.composite
def legacy_cases(draw):
    method = draw(st.sampled_from(["default", "ties", "linear", "slerp"] + sorted(LEGACY)))
    name = "ties" if method == "default" else method
    n = 2 if name == "slerp" else draw(st.integers(1, 4))
    case = {"arch": draw(st.sampled_from(ARCHS)), "seed": draw(seeds), "method": method, "n": n,
            "models": [{"layers": 1, "dtype": draw(st.sampled_from(["float32", "float32", "float16"]))} for _ in range(n)],
            "base": None, "weight": [], "density": [], "normalize": draw(st.sampled_from([None, True, False])),
            "int8": draw(st.sampled_from([None, None, True, False])), "bf16": draw(st.booleans()), "print": draw(st.booleans()),
            "opts": {"random_seed": draw(st.integers(0, 2**31 - 1)), "safe_serialization": draw(st.booleans()), "out_shard_size": draw(st.sampled_from([100, 10**9]))}}
    if draw(st.booleans()):
        for m in case["models"]:
            m["dtype"] = "float32"
    if LEGACY[name] or draw(st.integers(0, 3)) == 0:
        case["base"] = draw(st.integers(0, n - 1)) if name == "slerp" or draw(st.booleans()) else n
        if case["base"] == n:
            case["models"].append(dict(case["models"][0]))
    w = st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0, -0.5])
    if name == "slerp":
        case["weight"] = [draw(st.sampled_from([0.0, 0.25, 0.5, 1.0]))]
    else:
        case["weight"] = draw(st.one_of(st.just([]), st.lists(w, min_size=1, max_size=1), st.lists(w, min_size=n, max_size=len(case["models"]))))
    if name not in ("slerp", "linear"):
        d = st.sampled_from([0.25, 0.5, 0.75, 1.0])
        case["density"] = draw(st.one_of(st.just([]), st.lists(d, min_size=1, max_size=1), st.lists(d, min_size=n, max_size=len(case["models"]))))
    if name == "breadcrumbs":
        case["density"] = []
    return case


def legacy(case, ctx):
    from mergekit.scripts.legacy import main

    root = ctx.tmp()
    paths, states = build(root, case)
    n, out, ref = case["n"], os.path.join(root, "out"), os.path.join(root, "ref")
    method = "ties" if case["method"] == "default" else case["method"]
    args = [out]
    for p in paths[:n]:
        args += ["--merge", p]
    for d in case["density"]:
        args += ["--density", d]
    for w in case["weight"]:
        args += ["--weight", w]
    if case["method"] != "default":
        args += ["--method", method]
    if case["base"] is not None:
        args += ["--base-model", paths[case["base"]]]
    for k, v in (("normalize", case["normalize"]), ("int8-mask", case["int8"])):
        if v is not None:
            args.append(f"--{k}" if v else f"--no-{k}")
    if case["bf16"]:
        args.append("--bf16")
    if case["print"]:
        args.append("--print-yaml")
    o = case["opts"]
    args += ["--random-seed", o["random_seed"], "--out-shard-size", o["out_shard_size"], "--safe-serialization" if o["safe_serialization"] else "--no-safe-serialization"]
    res = invoke(main, args + ["--quiet", "--no-copy-tokenizer"])
    total = len(paths)

    def spread(xs, default):
        xs = xs or default
        return list(xs) * total if len(xs) == 1 else list(xs) + [None] * (total - len(xs))

    weights = spread(case["weight"], [1.0])
    dens = spread(case["density"], [None])
    cfg = {"merge_method": method, "models": [], "parameters": {"normalize": case["normalize"] is not False}}
    for i, p in enumerate(paths):
        e = {"model": p, "parameters": {}}
        if method != "slerp" and weights[i] is not None:
            e["parameters"]["weight"] = weights[i]
        if dens[i] is not None:
            e["parameters"]["density"] = dens[i]
        cfg["models"].append(e)
    if method == "slerp":
        cfg["parameters"]["t"] = case["weight"][0]
    if case["int8"]:
        cfg["parameters"]["int8_mask"] = True
    if case["base"] is not None:
        cfg["base_model"] = paths[case["base"]]
    if case["bf16"]:
        cfg["dtype"] = "bfloat16"
    try:
        merge(cfg, ref, **o)
    except Exception:  # noqa: BLE001 - the merge is refused
        require(failed(res), "the equivalent configuration is refused, but the tool succeeded")
        ctx.label("refused")
        return
    must(res)
    want, got = read_model(ref), read_model(out)
    compare(got, want)
    fns = [sorted(f for f in os.listdir(d) if f.startswith(("model", "pytorch_model"))) for d in (out, ref)]
    require(fns[0] == fns[1], "output files %s, expected %s", *fns)
    cs = [read_config(d) for d in (out, ref)]
    require(cs[0] == cs[1], "the written model configuration differs")
    if case["print"]:
        again = os.path.join(root, "again")
        merge(res.stdout, again, **o)
        compare(read_model(again), got)
    plain = all(m["dtype"] == "float32" for m in case["models"]) and not case["bf16"]
    if method == "linear" and plain and all(w is not None for w in weights):
        s = sum(weights)
        norm = case["normalize"] is not False
        if norm and abs(s) < 0.2:
            raise Rejected()
        for k, t in got.items():
            r = sum(w * sd[k].double() for w, sd in zip(weights, states)) / (s if norm else 1.0)
            require(bool(((t.double() - r).abs() <= 1e-4 * (1 + r.abs())).all()), "%s is not the weighted average", k)
    ctx.label(method, *(["base appended"] if case["base"] == n else []), *(["printed"] if case["print"] else []))
    ctx.interesting(total > 1 and bool(case["weight"] or case["density"]))


def naive_count(case, ctx):
    from mergekit.scripts.legacy import main

    root = ctx.tmp()
    paths, _states = build(root, case)
    ctx.interesting()
    res = invoke(main, [os.path.join(root, "out"), "--merge", paths[0], "--base-model", paths[1], "--naive-count", "--quiet", "--no-copy-tokenizer"])
    require(not failed(res), "--naive-count always fails")


def prepare():
    import mergekit.scripts.bakllama  # noqa: F401
    import mergekit.scripts.layershuffle  # noqa: F401
    import mergekit.scripts.legacy  # noqa: F401
    from vp.e2e import warm

    warm()


TESTS = [
    Test("bakllama", bak_cases, bakllama, quick=400, thorough=6000, shards=4, rule="several slices"),
    Test("layershuffle", shuffle_cases, layershuffle, quick=500, thorough=8000, shards=4,
         rule="layers of several models in the output, and a recipe or seed to reproduce it by"),
    Test("shares", share_cases, shares, quick=40, thorough=500, shards=2, rule="models of different weights"),
    Test("legacy", legacy_cases, legacy, quick=400, thorough=6000, shards=4, rule="several models with weights or densities given"),
]
FINDING_TESTS = [Test("naive_count", legacy_cases, naive_count)]
