"""C08: merged models hold exactly the requested layers, each from the right place."""
import os

import torch
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import bits, describe, rng
from vp.models import config_json, merge, read_config, read_model, seed_for, split_table, write_tensors

PROPERTY = "C08"
ASSUMPTIONS = [
    "the sources of one slice name distinct models (the same model twice is a recorded finding)",
    "layer ranges lie within the input models",
    "all inputs share one architecture and tensor shapes",
]

H, I, V = 4, 6, 7


def causal(arch):
    pre, fmt, layer, post = split_table(arch, {"hidden": H, "inter": I, "vocab": V, "kv": 2})
    from vp.models import ARCH, dims

    p, _, l, q = ARCH[arch][2](dims({"hidden": H, "inter": I, "vocab": V, "kv": 2}))
    shapes = {**p, **l, **q}
    key = "n_layer" if arch == "gpt2" else "num_hidden_layers"
    if arch == "gpt2":
        q = dict(q)
        q["lm_head.weight"] = (V, H)
        shapes["lm_head.weight"] = (V, H)
        post = list(q)
    emb = "transformer.wte.weight" if arch == "gpt2" else "model.embed_tokens.weight"
    return {"modules": {"default": {"pre": pre, "fmt": fmt, "layer": layer, "post": post, "key": key}},
            "shapes": shapes, "optional": {"lm_head.weight"}, "tied": {"lm_head.weight": [emb]}}


def bert():
    lay = []
    sh = {}
    for n, s in [("attention.self.query", (H, H)), ("attention.self.key", (H, H)), ("attention.self.value", (H, H)),
                 ("attention.output.dense", (H, H)), ("attention.output.LayerNorm", (H,)), ("intermediate.dense", (I, H)),
                 ("output.dense", (H, I)), ("output.LayerNorm", (H,))]:
        for w in ("weight", "bias"):
            lay.append(f"{n}.{w}")
            sh[f"{n}.{w}"] = s if w == "weight" else (s[0],)
    pre = {"embeddings.position_embeddings.weight": (16, H), "embeddings.token_type_embeddings.weight": (2, H),
           "embeddings.word_embeddings.weight": (V, H), "embeddings.LayerNorm.weight": (H,),
           "embeddings.LayerNorm.bias": (H,), "embeddings.position_ids": (1, 16)}
    post = {"pooler.dense.weight": (H, H), "pooler.dense.bias": (H,)}
    return {"modules": {"default": {"pre": list(pre), "fmt": "encoder.layer.{}.", "layer": lay, "post": list(post),
                                    "key": "num_hidden_layers"}},
            "shapes": {**pre, **sh, **post}, "optional": {"embeddings.position_ids"}, "tied": {}}


def t5():
    att = {f"{w}.weight": (H, H) for w in "qkvo"}
    dec = {"layer.0.layer_norm.weight": (H,), "layer.1.layer_norm.weight": (H,), "layer.2.layer_norm.weight": (H,),
           "layer.0.SelfAttention.relative_attention_bias.weight": (8, 2)}
    enc = {"layer.0.layer_norm.weight": (H,), "layer.1.layer_norm.weight": (H,),
           "layer.0.SelfAttention.relative_attention_bias.weight": (8, 2)}
    for k, s in att.items():
        dec["layer.0.SelfAttention." + k] = s
        dec["layer.1.EncDecAttention." + k] = s
        enc["layer.0.SelfAttention." + k] = s
    for d, n in ((dec, 2), (enc, 1)):
        d[f"layer.{n}.DenseReluDense.wi_0.weight"] = (I, H)
        d[f"layer.{n}.DenseReluDense.wi_1.weight"] = (I, H)
        d[f"layer.{n}.DenseReluDense.wo.weight"] = (H, I)
    e = (V, H)
    sh = {**dec, **enc, "decoder.embed_tokens.weight": e, "encoder.embed_tokens.weight": e, "shared.weight": e,
          "lm_head.weight": e, "decoder.final_layer_norm.weight": (H,), "encoder.final_layer_norm.weight": (H,)}
    return {"modules": {
        "decoder": {"pre": ["decoder.embed_tokens.weight"], "fmt": "decoder.block.{}.", "layer": list(dec),
                    "post": ["decoder.final_layer_norm.weight"], "key": "num_decoder_layers"},
        "encoder": {"pre": ["encoder.embed_tokens.weight"], "fmt": "encoder.block.{}.", "layer": list(enc),
                    "post": ["encoder.final_layer_norm.weight"], "key": "num_layers"},
        "shared": {"pre": ["shared.weight"], "fmt": "-{}", "layer": [], "post": ["lm_head.weight"], "key": None},
    }, "shapes": sh,
        "optional": {"decoder.embed_tokens.weight", "encoder.embed_tokens.weight", "lm_head.weight",
                     "layer.0.SelfAttention.relative_attention_bias.weight"},
        "tied": {"decoder.embed_tokens.weight": ["shared.weight"], "encoder.embed_tokens.weight": ["shared.weight"],
                 "lm_head.weight": ["shared.weight"]}}


SPEC = {"llama": causal("llama"), "mistral": causal("mistral"), "qwen2": causal("qwen2"), "gpt2": causal("gpt2"),
        "bert": bert(), "t5": t5()}


def model_config(arch, layers, seed=0):
    if arch == "bert":
        return {"architectures": ["BertModel"], "model_type": "bert", "hidden_size": H, "intermediate_size": I,
                "num_hidden_layers": layers["default"], "num_attention_heads": 2, "vocab_size": V,
                "max_position_embeddings": 16, "dtype": "float32"}
    if arch == "t5":
        return {"architectures": ["T5ForConditionalGeneration"], "model_type": "t5", "d_model": H, "d_ff": I, "d_kv": 2,
                "num_heads": 2, "num_layers": layers["encoder"], "num_decoder_layers": layers["decoder"], "vocab_size": V,
                "relative_attention_num_buckets": 8, "feed_forward_proj": "gated-gelu", "dtype": "float32",
                "tie_word_embeddings": False}
    extra = {}
    if arch == "qwen2":
        extra = {"layer_types": layer_types(layers["default"], seed), "use_sliding_window": True, "sliding_window": 8}
    return config_json(arch, {"hidden": H, "inter": I, "vocab": V, "kv": 2, "layers": layers["default"]}, **extra)


def layer_types(n, seed):
    return ["sliding_attention" if (seed >> i) & 1 else "full_attention" for i in range(n)]


def ints(shape, seed):
    return torch.randint(-2000, 2001, tuple(shape), generator=rng(seed)).float()


def model_tensors(arch, layers, seed, drop):
    """{logical name: tensor}: a complete checkpoint minus dropped optional tensors."""
    sp = SPEC[arch]
    out = {}
    for mname, m in sp["modules"].items():
        names = [(n, n) for n in m["pre"]]
        for l in range(layers.get(mname, 0)):
            names += [(m["fmt"].format(l) + w, w) for w in m["layer"]]
        names += [(n, n) for n in m["post"]]
        for full, key in names:
            if "relative_attention_bias" in key and not full.split(".")[2] == "0":
                continue
            if full in drop:
                continue
            if full == "embeddings.position_ids":
                out[full] = torch.arange(16).reshape(1, 16)
                continue
            out[full] = ints(sp["shapes"][key], seed_for(seed, full))
    return out


def stored_name(arch, name, style):
    if style == 0:
        return name
    if arch == "gpt2":
        return name.removeprefix("transformer.")
    if arch == "bert":
        n = name
        if style in (1, 3) and "LayerNorm" in n:
            n = n.replace("LayerNorm.weight", "LayerNorm.gamma").replace("LayerNorm.bias", "LayerNorm.beta")
        if style in (2, 3):
            n = "bert." + n
        return n
    return name


@st.composite
def recipes(draw, broken=False):
    arch = draw(st.sampled_from(["llama", "llama", "qwen2", "gpt2", "mistral", "bert", "t5", "t5"]))
    sp = SPEC[arch]
    mods = [m for m in sp["modules"] if sp["modules"][m]["key"]]
    n = draw(st.integers(1, 4))
    equal = draw(st.booleans())
    base_layers = {m: draw(st.integers(1, 4)) for m in mods}
    models = []
    for _ in range(n):
        layers = dict(base_layers) if equal else {m: draw(st.integers(1, 4)) for m in mods}
        models.append({
            "layers": layers, "seed": draw(st.integers(0, 10**6)),
            "drop": sorted(draw(st.sets(st.sampled_from(sorted(o for o in sp["optional"] if "relative" not in o)), max_size=3))),
            "fmt": draw(st.sampled_from(["safetensors", "safetensors", "bin"])), "shards": draw(st.integers(1, 3)),
            "names": draw(st.integers(0, 3)),
            "extra": draw(st.booleans()),
        })
    method = draw(st.sampled_from(["passthrough", "linear", "linear", "task_arithmetic"]))
    single = len(sp["modules"]) == 1
    styles = (["slices", "slices", "slices"] if single else []) + ["modules", "modules"]
    if equal and (method != "passthrough" or n == 1):
        styles += ["models"]
    style = draw(st.sampled_from(styles))

    def one_slices(m):
        out = []
        for _ in range(draw(st.integers(1, 4)) if m in mods else 1):
            k = 1 if method == "passthrough" else draw(st.integers(1, n))
            who = draw(st.permutations(range(n)))[:k]
            top = min(models[i]["layers"].get(m, 0) for i in who)
            ln = draw(st.integers(0, top)) if m in mods else 0
            out.append({"src": [[i, draw(st.integers(0, models[i]["layers"].get(m, 0) - ln)) if m in mods else 0] for i in who],
                        "len": ln, "base": draw(st.integers(0, k - 1))})
        if sum(s["len"] for s in out) == 0 and m in mods:
            out[0]["len"] = 1
            for s in out[0]["src"]:
                s[1] = min(s[1], models[s[0]]["layers"][m] - 1)
        return out

    case = {"arch": arch, "models": models, "method": method, "style": style, "base": draw(st.integers(0, n - 1)),
            "use_base": draw(st.booleans()),
            "slices": {} if style == "models" else {m: one_slices(m) for m in sp["modules"]}}
    if broken:
        # give one source of one multi-source slice a different length
        cands = [(m, i) for m, ss in case["slices"].items() for i, s in enumerate(ss) if len(s["src"]) > 1]
        if not cands:
            case["broken"] = None
        else:
            m, i = draw(st.sampled_from(cands))
            case["broken"] = [m, i, draw(st.integers(0, len(case["slices"][m][i]["src"]) - 1)), draw(st.sampled_from([1, -1, 2]))]
    return case


W = [1.0, 3.0, -7.0, 20.0]


def build(case, ctx):
    arch = case["arch"]
    root = ctx.tmp()
    paths, states = [], []
    for i, m in enumerate(case["models"]):
        p = os.path.join(root, f"m{i}")
        os.makedirs(p)
        sd = model_tensors(arch, m["layers"], m["seed"] * 7 + i, set(m["drop"]))
        stored = {stored_name(arch, k, m["names"]): v for k, v in sd.items()}
        if m["extra"]:
            stored["some.unrelated.buffer"] = torch.ones(3)
        write_tensors(p, stored, m["fmt"], m["shards"])
        import json

        with open(os.path.join(p, "config.json"), "w") as f:
            json.dump(model_config(arch, m["layers"], m["seed"]), f)
        paths.append(p)
        states.append(sd)
    sp = SPEC[arch]
    method = case["method"]
    gbase = case["base"]

    def params(i):
        return None if method == "passthrough" else {"weight": W[i]}

    cfg = {"merge_method": method}
    if method == "linear":
        cfg["parameters"] = {"normalize": False}
    if case["style"] == "models":
        cfg["models"] = [{"model": p, "parameters": params(i)} for i, p in enumerate(paths)]
        who = list(range(len(paths)))
        plan = {mn: [{"src": [[i, 0] for i in who], "len": case["models"][0]["layers"].get(mn, 0), "base": gbase}]
                for mn in sp["modules"]}
        if method == "task_arithmetic" or case["use_base"]:
            cfg["base_model"] = paths[gbase]
    else:
        plan = case["slices"]

        def raw(mn):
            res = []
            for k, s in enumerate(plan[mn]):
                src = []
                for j, (i, a) in enumerate(s["src"]):
                    ln = s["len"]
                    br = case.get("broken")
                    if br and br[0] == mn and br[1] == k and br[2] == j:
                        ln = max(0, ln + br[3])
                        if ln == s["len"]:
                            ln += 1
                    src.append({"model": paths[i], "layer_range": [a, a + ln], "parameters": params(i)})
                d = {"sources": src}
                if method == "task_arithmetic":
                    d["base_model"] = paths[s["src"][s["base"]][0]]
                res.append(d)
            return res

        if case["style"] == "slices":
            cfg["slices"] = raw("default")
        else:
            cfg["modules"] = {mn: {"slices": raw(mn)} for mn in sp["modules"]}
        if case["use_base"] or method == "task_arithmetic":
            used = {i for ss in plan.values() for s in ss for i, _ in s["src"]}
            cfg["base_model"] = paths[gbase if gbase in used else sorted(used)[0]]
    return cfg, plan, paths, states, root


def lookup(arch, sd, name):
    """A model's own tensor for this slot: itself or what it is tied to."""
    if name in sd:
        return sd[name]
    for t in SPEC[arch]["tied"].get(name, []):
        if t in sd:
            return sd[t]
    return None


def is_optional(arch, key):
    return key in SPEC[arch]["optional"]


def expected(case, plan, states):
    """{output name: (combination of source tensors)}, by the documented rule."""
    arch = case["arch"]
    sp = SPEC[arch]
    method = case["method"]
    out = {}

    def add(name, key, srcs, base):
        # srcs: [(model, source name)]
        present = [(i, n, lookup(arch, states[i], n)) for i, n in srcs]
        if is_optional(arch, key) and not any(n in states[i] for i, n in srcs):
            return
        present = [(i, n, t) for i, n, t in present if t is not None]
        if method == "passthrough":
            r = present[0][2]
        elif method == "linear":
            r = sum(t.double() * W[i] for i, n, t in present)
        else:
            b = [t for i, n, t in present if i == base]
            if not b:
                raise Rejected()  # base lacks an optional tensor: unspecified
            r = b[0].double() + sum((t.double() - b[0].double()) * W[i] for i, n, t in present if i != base)
        out[name] = r

    for mn, m in sp["modules"].items():
        sl = plan[mn]
        for w in m["pre"]:
            add(w, w, [(i, w) for i, _ in sl[0]["src"]], sl[0]["src"][sl[0]["base"]][0] if case["style"] != "models" else sl[0]["base"])
        idx = 0
        for s in sl:
            b = s["src"][s["base"]][0] if case["style"] != "models" else s["base"]
            for j in range(s["len"]):
                for w in m["layer"]:
                    add(m["fmt"].format(idx) + w, w, [(i, m["fmt"].format(a + j) + w) for i, a in s["src"]], b)
                idx += 1
        for w in m["post"]:
            add(w, w, [(i, w) for i, _ in sl[-1]["src"]], sl[-1]["src"][sl[-1]["base"]][0] if case["style"] != "models" else sl[-1]["base"])
    return out


def assemble(case, ctx):
    arch = case["arch"]
    cfg, plan, paths, states, root = build(case, ctx)
    want = expected(case, plan, states)
    out = os.path.join(root, "out")
    merge(cfg, out)
    got = read_model(out)
    require(set(got) == set(want), "output tensors: missing %s, unexpected %s", sorted(set(want) - set(got))[:5],
            sorted(set(got) - set(want))[:5])
    for k, w in want.items():
        t = got[k]
        if k == "embeddings.position_ids":
            # an integer buffer: only its presence and shape are asserted when combined
            require(t.shape == w.shape, "shape of %s", k)
            if case["method"] == "passthrough":
                require(bool((t == w).all()), "%s changed", k)
            continue
        require(t.shape == w.shape and bool((t.double() == w.double()).all()),
                "tensor %s is %s, but the mapped inputs give %s", k, describe(t), describe(w))
    conf = read_config(out)
    for mn, m in SPEC[arch]["modules"].items():
        if m["key"]:
            n = sum(s["len"] for s in plan[mn])
            require(conf[m["key"]] == n, "config says %s=%s, the output has %d layers", m["key"], conf[m["key"]], n)
    if arch == "qwen2" and case["style"] != "models":
        types = []
        for s in plan["default"]:
            i, a = s["src"][0]
            types += layer_types(case["models"][i]["layers"]["default"], case["models"][i]["seed"])[a:a + s["len"]]
        require(conf["layer_types"] == types, "attention types %s do not follow the layers' own %s", conf["layer_types"], types)
    ctx.label(arch, case["style"], case["method"])
    ctx.interesting(len(case["models"]) > 1 and (case["style"] == "models" or max(len(s) for s in plan.values()) > 1))


def reject(case, ctx):
    if not case.get("broken"):
        raise Rejected()
    cfg, plan, paths, states, root = build(case, ctx)
    ctx.interesting()
    try:
        merge(cfg, os.path.join(root, "out"))
    except Exception:
        return
    require(False, "a slice whose sources have different lengths was accepted: %s", case["broken"])


def uneven(case, ctx):
    """models-style merge of models with different layer counts must fail."""
    arch = case["arch"]
    sp = SPEC[arch]
    if len(case["models"]) < 2 or case["method"] == "passthrough":
        raise Rejected()
    case = dict(case, style="models", slices={}, base=0)
    if all(m["layers"] == case["models"][0]["layers"] for m in case["models"]):
        raise Rejected()
    cfg, plan, paths, states, root = build(case, ctx)
    ctx.interesting()
    try:
        merge(cfg, os.path.join(root, "out"))
    except Exception:
        return
    require(False, "models with layer counts %s were merged whole", [m["layers"] for m in case["models"]])


def duplicate(case, ctx):
    """The same model twice in one slice (different layers): both must enter."""
    cfg, plan, paths, states, root = build(case, ctx)
    src = cfg["slices"][0]["sources"]
    want = {}
    out = os.path.join(root, "out")
    merge(cfg, out)
    got = read_model(out)
    a = states[0]
    k = "model.layers.0.self_attn.q_proj.weight"
    w = a[k] + a["model.layers.1.self_attn.q_proj.weight"]
    require(bool((got[k] == w).all()), "only one of two layers of the same model entered the merge")


def prepare():
    import tempfile
    import shutil

    d = tempfile.mkdtemp(prefix="vp-c08-")
    try:
        case = {"arch": "llama", "models": [{"layers": {"default": 1}, "seed": 1, "drop": [], "fmt": "safetensors", "shards": 1,
                                             "names": 0, "extra": False}], "method": "passthrough", "style": "slices", "base": 0,
                "use_base": False, "slices": {"default": [{"src": [[0, 0]], "len": 1, "base": 0}]}}

        class C:
            def tmp(self):
                return tempfile.mkdtemp(dir=d)

        cfg, *_ , root = build(case, C())
        try:
            merge(cfg, os.path.join(root, "out"))
        except Exception:
            pass  # reported by the tests themselves
    finally:
        shutil.rmtree(d, ignore_errors=True)


TESTS = [
    Test("assemble", recipes, assemble, quick=1000, thorough=20000, shards=8, budget=70,
         rule="1-4 checkpoints (6 architectures incl. encoder-decoder modules; pickled/sharded; old names; dropped optional "
              "tensors; stray tensors) x slice lists; every output tensor compared exactly with the combination of the mapped "
              "inputs; non-trivial = several models and several slices (or a whole-model merge)"),
    Test("reject", lambda: recipes(broken=True), reject, quick=150, thorough=2000, shards=2, budget=40,
         rule="one source of a slice given a different length"),
    Test("uneven", recipes, uneven, quick=60, thorough=1000, shards=1, budget=40,
         rule="whole-model merges of different layer counts"),
]
FINDING_TESTS = [Test("duplicate", recipes, duplicate)]
