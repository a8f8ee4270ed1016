"""Generated whole-merge recipes: models, tokenizers and a configuration, from a JSON-able spec."""
import json
import os

from hypothesis import strategies as st

from vp.gen import make
from vp.models import config_json, dims, seed_for, state, write_tensors
from vp.toks import write_tokenizer

RANDOM = {"dare_ties", "dare_linear", "della", "della_linear"}
TEMPLATES = ["{{ messages }} a", "{{ messages }} b", None]
POOL = [f"t{i}" for i in range(14)]

w = st.sampled_from([0.25, 0.5, 1.0, -0.5])
unit = st.sampled_from([0.0, 0.3, 0.5, 0.8, 1.0])


@st.composite
def methods(draw, n):
    """(method, needs base, global params, per-model params or None)"""
    opts = ["linear", "linear", "task_arithmetic", "ties", "dare_ties", "dare_linear", "della", "della_linear", "breadcrumbs",
            "multislerp", "karcher", "sce", "passthrough"]
    if n == 2:
        opts += ["slerp", "nuslerp", "arcee_fusion", "nearswap"]
    if n > 2:
        opts += ["model_stock"]
    m = draw(st.sampled_from(opts))
    g, per, base = {}, [{} for _ in range(n)], "no"
    if m in ("linear", "task_arithmetic", "ties", "dare_ties", "dare_linear", "della", "della_linear", "breadcrumbs", "multislerp",
             "nuslerp"):
        per = [{"weight": draw(w)} for _ in range(n)]
    if m in ("ties", "dare_ties", "dare_linear", "della", "della_linear", "breadcrumbs"):
        g["density"] = draw(st.sampled_from([0.4, 0.7, 1.0]))
    if m.startswith("della"):
        g["epsilon"] = 0.05
        g["density"] = min(g["density"], 0.9)
    if m in ("slerp", "nearswap"):
        g["t"] = draw(unit) if m == "slerp" else 0.01
    if m == "sce":
        g["select_topk"] = draw(st.sampled_from([0.4, 1.0]))
    if m in ("task_arithmetic", "ties", "dare_ties", "dare_linear", "della", "della_linear", "breadcrumbs", "slerp", "sce",
             "arcee_fusion", "nearswap", "model_stock"):
        base = "yes"
    elif m in ("linear", "karcher", "passthrough"):
        base = draw(st.sampled_from(["no", "maybe"])) if m == "linear" else "no"
    return {"name": m, "g": g, "per": per, "base": base}


@st.composite
def recipes(draw, random_ok=True, tokens=True):
    n = draw(st.sampled_from([2, 2, 2, 3]))
    m = draw(methods(n))
    if not random_ok and m["name"] in RANDOM:
        m["name"] = "ties"
        m["g"].pop("epsilon", None)
    base = None
    if m["base"] == "yes" or (m["base"] == "maybe" and draw(st.booleans())):
        base = draw(st.integers(0, n - 1))
    arch = draw(st.sampled_from(["llama", "llama", "gpt2", "unknown"]))
    r = {"n": n, "seed": draw(st.integers(0, 10**6)), "method": m, "base": base, "arch": arch,
         "dtype": draw(st.sampled_from(["float32", "float32", "bfloat16"])),
         "cfg_dtype": draw(st.sampled_from([None, None, "float32", "bfloat16"])),
         "out_dtype": draw(st.sampled_from([None, None, None, "float16"])),
         "order": draw(st.permutations(list(range(n)))),
         "fmt": draw(st.sampled_from(["safetensors", "safetensors", "bin"])), "shards": draw(st.sampled_from([1, 1, 2, 3])),
         "layers": draw(st.sampled_from([1, 2, 3])), "tok": None}
    if tokens and arch != "unknown" and m["name"] not in ("passthrough",) and draw(st.booleans()):
        vocabs = []
        core = draw(st.integers(2, 5))
        for _ in range(n):
            vocabs.append(draw(st.lists(st.sampled_from(POOL[core:]), min_size=0, max_size=5, unique=True)))
        r["tok"] = {"source": draw(st.sampled_from(["union", "union", "base", "union"])), "core": core, "vocabs": vocabs,
                    "pad": draw(st.sampled_from([None, None, 8]))}
    r["templates"] = [draw(st.sampled_from(TEMPLATES)) for _ in range(n)] if r["tok"] or draw(st.booleans()) else None
    r["chat_template"] = draw(st.sampled_from([None, "auto", "chatml"])) if r["templates"] else None
    if m["name"] == "passthrough":
        r["slices"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, r["layers"] - 1)), min_size=1, max_size=4))
    return r


def vocab_of(r, i):
    if r.get("tok"):
        t = r["tok"]
        return ["<unk>"] + POOL[: t["core"]] + t["vocabs"][i]
    return ["<unk>"] + POOL[:6]


def write_inputs(r, root):
    """Write the models of a recipe under root; returns their paths."""
    return [write_input(r, root, i) for i in range(r["n"])]


def write_input(r, root, i, seed=None, fmt=None, shards=None, dtype=None):
    arch = "llama" if r["arch"] == "unknown" else r["arch"]
    v = vocab_of(r, i)
    d = dims({"layers": r["layers"], "vocab": len(v)})
    dtype = dtype or r["dtype"]
    sd = state(arch, d, (r["seed"] + 31 * i) if seed is None else seed, "normal", dtype)
    cfg = config_json(arch, d, dtype)
    if r["arch"] == "unknown":
        # a layout no definition covers, and that the model library can not build either
        sd = {k.replace("self_attn", "mixer").replace("model.layers", "trunk.blocks"): t for k, t in sd.items()}
        cfg["architectures"] = ["VpNovelForCausalLM"]
        for k in ("trunk.stem.weight", "trunk.tail.bias", "trunk.zeta.weight"):
            sd[k] = make((4,), seed_for(r["seed"] + i, k), "normal", sd["lm_head.weight"].dtype)
    p = os.path.join(root, f"m{i}")
    os.makedirs(p, exist_ok=True)
    for fn in os.listdir(p):
        os.remove(os.path.join(p, fn))
    with open(os.path.join(p, "config.json"), "w") as f:
        json.dump(cfg, f)
    write_tensors(p, sd, fmt or r["fmt"], shards or r["shards"])
    if r.get("tok") or r.get("templates"):
        write_tokenizer(p, v, chat_template=r["templates"][i] if r.get("templates") else None)
    return p


def config(r, paths):
    m = r["method"]
    cfg = {"merge_method": m["name"]}
    if m["g"]:
        cfg["parameters"] = dict(m["g"])
    if r["base"] is not None:
        cfg["base_model"] = paths[r["base"]]
    if r["cfg_dtype"]:
        cfg["dtype"] = r["cfg_dtype"]
    if r["out_dtype"]:
        cfg["out_dtype"] = r["out_dtype"]
    if m["name"] == "passthrough":
        if r["arch"] == "unknown":
            cfg["models"] = [{"model": paths[r["order"][0]]}]
        else:
            cfg["slices"] = [{"sources": [{"model": paths[i], "layer_range": [lo, r["layers"]]}]} for i, lo in r["slices"]]
    else:
        cfg["models"] = [{"model": paths[i], "parameters": dict(m["per"][i])} if m["per"][i] else {"model": paths[i]}
                         for i in r["order"]]
    if r.get("tok"):
        cfg["tokenizer"] = {"source": r["tok"]["source"]}
        if r["tok"]["pad"]:
            cfg["tokenizer"]["pad_to_multiple_of"] = r["tok"]["pad"]
    if r.get("chat_template"):
        cfg["chat_template"] = r["chat_template"]
    return cfg


def snapshot(out, tokenizer=True):
    """Comparable content of an output directory: tensors, configuration, tokenizer."""
    from vp.gen import bits
    from vp.models import read_model
    from vp.toks import read_vocab, template_of

    import hashlib

    t = {k: (str(v.dtype), tuple(v.shape), hashlib.sha256(bits(v)[2]).hexdigest()) for k, v in read_model(out).items()}
    with open(os.path.join(out, "config.json")) as f:
        c = json.load(f)
    s = {"tensors": t, "config": c}
    if tokenizer:
        s["vocab"] = read_vocab(out) if os.path.exists(os.path.join(out, "tokenizer.json")) else None
        s["template"] = template_of(out)
        p = os.path.join(out, "tokenizer.json")
        if os.path.exists(p):
            with open(p) as f:
                s["tokenizer_json"] = json.load(f)
    return s


def difference(a, b):
    """A short account of how two snapshots differ, or None."""
    if a == b:
        return None
    for part in a:
        x, y = a.get(part), b.get(part)
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                keys = [k for k in sorted(set(x) | set(y), key=str) if x.get(k) != y.get(k)]
                return f"{part}: " + "; ".join(f"{k}: {str(x.get(k))[:80]} vs {str(y.get(k))[:80]}" for k in keys[:4])
            return f"{part}: {str(x)[:200]} vs {str(y)[:200]}"
    return "parts differ"
