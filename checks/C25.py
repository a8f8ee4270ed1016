"""C25: architecture definitions list exactly a model's tensors."""
import os
import re

from hypothesis import strategies as st

from vp import zoo
from vp.core import Rejected, Test, require
from vp.gen import seeds
from vp.models import merge, read_model, seed_for, write_tensors

PROPERTY = "C25"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated configurations of about a hundred real model kinds, built with random parameters by the transformers library and saved in old and new layouts, "
             "merged and loaded back, against the parameters averaged directly; generated checkpoints of unknown layouts against the union of their tensors; checkpoints of kinds the library "
             "does not have against tables of their published tensor names")
ASSUMPTIONS = [
    "the installed transformers library decides which tensors a model kind has and which older names it reads",
    "kinds the library does not have (Baichuan, ChatGLM, EXAONE, InternLM 2, JAIS, phi-1, Phi-3-small, Qwen 1, Solar, StableLM Epoch) follow the tables of published names in this check",
    "Qwen 3 VL models have three deepstack layers; the mixture-of-experts kind has no dense layers",
    "models merged together share one configuration",
]


# ---- real models ------------------------------------------------------------

def real_cases(arch):
    knobs = (zoo.KNOWN.get(arch) or zoo.OTHER[arch])[1]
    opts = {k: st.sampled_from(list(vs)) for k, vs in knobs}

    @st.composite
    def strategy(draw):
        options = {k: v for k, v in draw(st.fixed_dictionaries(opts)).items() if draw(st.integers(0, 3))}
        n = draw(st.sampled_from([2, 2, 1, 3]))
        return {"arch": arch, "options": options, "seed": draw(st.integers(0, 10**6)),
                "original": [draw(st.integers(0, 2)) > 0 for _ in range(n)],
                "weights": [draw(st.sampled_from([1.0, 0.5, 2.0, 0.25])) for _ in range(n)],
                "max_shard": draw(st.sampled_from([None, "20KB"])), "base": draw(st.integers(0, 3)) == 0}
    return strategy


def built(case, root):
    import torch
    import transformers

    n = len(case["original"])
    models, paths = [], []
    for i in range(n):
        m = zoo.build(case["arch"], case["options"], case["seed"] + i)
        p = os.path.join(root, f"m{i}")
        kw = {"max_shard_size": case["max_shard"]} if case.get("max_shard") else {}
        m.save_pretrained(p, save_original_format=case["original"][i], **kw)
        # the library itself has to be able to read what it wrote
        back, info = getattr(transformers, case["arch"]).from_pretrained(p, output_loading_info=True)
        if any(info.values()):
            raise Rejected("not saved faithfully")
        sd = m.state_dict()
        if any(k not in sd or not torch.equal(v, sd[k]) for k, v in back.state_dict().items()):
            raise Rejected("not saved faithfully")
        models.append(m)
        paths.append(p)
    return models, paths


def vocabulary_tables(model):
    """Parameters with one row per token."""
    import torch

    out = {}
    for name, mod in model.named_modules():
        if isinstance(mod, torch.nn.Embedding) and mod.num_embeddings == zoo.V:
            out[name] = mod.weight
    for get in ("get_input_embeddings", "get_output_embeddings"):
        try:
            mod = getattr(model, get)()
        except NotImplementedError:
            continue
        w = getattr(mod, "weight", None)
        if w is not None and w.ndim == 2 and w.shape[0] == zoo.V:
            out[get] = w
    return list(out.values())


def check_marks(case, model, path, config):
    """The listed weights: each once, and embeddings marked."""
    import torch

    from mergekit.architecture import get_architecture_info
    from mergekit.common import ModelReference
    from mergekit.config import MergeConfiguration
    from mergekit.io.lazy_tensor_loader import LazyTensorLoader
    from mergekit.options import MergeOptions

    options = MergeOptions(copy_tokenizer=False)
    info = get_architecture_info(MergeConfiguration.model_validate(config), options)
    listed = info.all_weights(ModelReference.model_validate(path).config())
    names = [w.name for w in listed]
    require(len(names) == len(set(names)), "tensors listed twice: %s", sorted(n for n in names if names.count(n) > 1)[:4])
    tables = vocabulary_tables(model)
    loader = LazyTensorLoader.from_disk(path)
    for w in listed:
        at = [n for n in (w.name, *(w.aliases or ())) if n in loader.index.tensor_paths]
        if not at:
            continue
        t = loader.get_tensor(at[0])
        is_table = t.ndim == 2 and any(t.shape == v.shape and torch.equal(t, v) for v in tables)
        if t.ndim == 2:
            require(bool(w.is_embed) == is_table, "%s is %smarked as an embedding of tokens", w.name, "" if w.is_embed else "not ")


# kinds no automatic class of the library builds: only the tensors are known
UNMARKED = {"T5EncoderModel"}


def real(case, ctx):
    import torch
    import transformers

    root = ctx.tmp()
    models, paths = built(case, root)
    config = {"merge_method": "linear", "dtype": "float32",
              "models": [{"model": p, "parameters": {"weight": w}} for p, w in zip(paths, case["weights"])]}
    if case.get("base"):
        config["base_model"] = paths[-1]
    if case["arch"] not in UNMARKED:
        check_marks(case, models[0], paths[0], config)
    out = os.path.join(root, "out")
    merge(config, out, lazy_unpickle=False)
    got, info = getattr(transformers, case["arch"]).from_pretrained(out, output_loading_info=True)
    bad = {k: sorted(map(str, v))[:4] for k, v in info.items() if v}
    require(not bad, "the merged model does not load cleanly: %s", bad)
    have = got.state_dict()
    want = [m.state_dict() for m in models]
    total = sum(case["weights"])
    require(set(have) == set(want[0]), "tensors differ: %s", sorted(set(have) ^ set(want[0]))[:4])
    for name, t in have.items():
        if not t.is_floating_point():
            require(torch.equal(t, want[0][name]), "%s differs", name)
            continue
        ref = sum(w * sd[name].double() for w, sd in zip(case["weights"], want)) / total
        require(t.shape == ref.shape and torch.allclose(t.double(), ref, rtol=1e-5, atol=1e-5), "%s is not the average of the inputs'", name)
    read_model(out)
    ctx.label(case["arch"], "original" if all(case["original"]) else "converted" if not any(case["original"]) else "mixed layouts", f"{len(paths)} models")
    ctx.label("defined" if case["arch"] in zoo.KNOWN else "inferred")
    ctx.interesting(len(paths) > 1)


# ---- layer numbering --------------------------------------------------------

UNIFORM = {a: None for a in (
    "ApertusForCausalLM ArceeForCausalLM BertForMaskedLM BertModel Cohere2ForCausalLM CohereForCausalLM DistilBertForMaskedLM DistilBertModel FalconForCausalLM GPT2LMHeadModel "
    "GPT2ForSequenceClassification GPTBigCodeForCausalLM GPTNeoXForCausalLM Gemma2ForCausalLM Gemma3ForCausalLM GemmaForCausalLM Glm4ForCausalLM GraniteForCausalLM LlamaForCausalLM "
    "LlamaForSequenceClassification MambaForCausalLM MistralForCausalLM MixtralForCausalLM Olmo2ForCausalLM Phi3ForCausalLM PhiForCausalLM Qwen2ForCausalLM Qwen3ForCausalLM "
    "Qwen3MoeForCausalLM RobertaForMaskedLM RobertaModel StableLmForCausalLM Starcoder2ForCausalLM").split()}
COUNTS = ("num_hidden_layers", "n_layers", "n_layer")
IRREGULAR = ("mlp_only_layers", "decoder_sparse_step", "layer_types")
RE_LAYER = re.compile(r"\.(\d+)\.")


@st.composite
def layer_cases(draw):
    arch = draw(st.sampled_from(sorted(UNIFORM)))
    base, knobs = zoo.KNOWN[arch]
    options = {k: draw(st.sampled_from(vs)) for k, vs in knobs if k not in COUNTS and k not in IRREGULAR}
    n = draw(st.integers(1, 4))
    key = next(k for k in COUNTS if k in base)
    options[key] = n
    slices = draw(st.lists(st.integers(0, n - 1).flatmap(lambda a: st.tuples(st.just(a), st.integers(a + 1, n), st.integers(0, 1))), min_size=1, max_size=3))
    return {"arch": arch, "options": options, "key": key, "seed": draw(st.integers(0, 10**6)), "slices": [list(s) for s in slices], "original": [draw(st.booleans()) for _ in range(2)]}


def layers(case, ctx):
    import torch
    import transformers

    root = ctx.tmp()
    models, paths = built(case, root)
    config = {"merge_method": "passthrough", "dtype": "float32",
              "slices": [{"sources": [{"model": paths[m], "layer_range": [a, b]}]} for a, b, m in case["slices"]]}
    out = os.path.join(root, "out")
    merge(config, out, lazy_unpickle=False)
    got, info = getattr(transformers, case["arch"]).from_pretrained(out, output_loading_info=True)
    bad = {k: sorted(map(str, v))[:4] for k, v in info.items() if v}
    require(not bad, "the merged model does not load cleanly: %s", bad)
    order = [(m, i) for a, b, m in case["slices"] for i in range(a, b)]
    require(getattr(got.config, case["key"]) == len(order), "%d layers, expected %d", getattr(got.config, case["key"]), len(order))
    want = [m.state_dict() for m in models]
    first, last = case["slices"][0][2], case["slices"][-1][2]
    seen = set()
    for name, t in got.state_dict().items():
        hit = RE_LAYER.search(name)
        if hit:
            i = int(hit.group(1))
            require(i < len(order), "layer %d of %d: %s", i, len(order), name)
            seen.add(i)
            m, j = order[i]
            src = name[:hit.start()] + f".{j}." + name[hit.end():]
            require(torch.equal(t, want[m][src]), "layer %d is not layer %d of model %d: %s", i, j, m, name)
        else:
            # before or after the layers: from the first or the last model
            require(any(torch.equal(t, want[m][name]) for m in (first, last)), "%s is from neither end", name)
    require(seen == set(range(len(order))), "layers %s of %d", sorted(seen), len(order))
    ctx.label(case["arch"], f"{len(order)} layers", "from 0" if order[0][1] == 0 else "not from 0")
    ctx.interesting(len(order) > 1)


# ---- kinds the transformers library does not have ----------------------------

def both(prefix, *names):
    return [f"{prefix}{n}.{s}" for n in names for s in ("weight", "bias")]


def w(prefix, *names):
    return [f"{prefix}{n}.weight" for n in names]


def _llama(n, attn=("q_proj", "k_proj", "v_proj", "o_proj")):
    out = ["model.embed_tokens.weight", "model.norm.weight"]
    for i in range(n):
        out += w(f"model.layers.{i}.", "input_layernorm", "post_attention_layernorm", *(f"self_attn.{a}" for a in attn), "mlp.gate_proj", "mlp.up_proj", "mlp.down_proj")
    return out


def _exaone(n):
    out = ["transformer.wte.weight", "transformer.ln_f.weight"]
    for i in range(n):
        out += w(f"transformer.h.{i}.", "ln_1", "ln_2", "attn.attention.q_proj", "attn.attention.k_proj", "attn.attention.v_proj", "attn.attention.out_proj", "mlp.c_fc_0", "mlp.c_fc_1", "mlp.c_proj")
    return out


def _internlm2(n):
    out = ["model.tok_embeddings.weight", "model.norm.weight"]
    for i in range(n):
        out += w(f"model.layers.{i}.", "attention_norm", "ffn_norm", "attention.wqkv", "attention.wo", "feed_forward.w1", "feed_forward.w2", "feed_forward.w3")
    return out


def _chatglm(n):
    out = ["transformer.embedding.word_embeddings.weight", "transformer.rotary_pos_emb.inv_freq", "transformer.encoder.final_layernorm.weight", "transformer.output_layer.weight"]
    for i in range(n):
        p = f"transformer.encoder.layers.{i}."
        out += w(p, "input_layernorm", "post_attention_layernorm", "mlp.dense_h_to_4h", "mlp.dense_4h_to_h", "self_attention.dense", "self_attention.query_key_value")
        out += [p + "self_attention.query_key_value.bias"]
    return out


def _jais(n):
    out = ["transformer.wte.weight", "transformer.relative_pe.slopes"] + both("transformer.", "ln_f")
    for i in range(n):
        out += both(f"transformer.h.{i}.", "attn.c_attn", "attn.c_proj", "ln_1", "ln_2", "mlp.c_fc", "mlp.c_fc2", "mlp.c_proj")
    return out


def _phi1(n):
    # a sequence of the embedding, the blocks and the head
    out = ["layers.0.wte.weight"] + both(f"layers.{n + 1}.", "ln", "linear")
    for i in range(1, n + 1):
        out += both(f"layers.{i}.", "ln", "mixer.Wqkv", "mixer.out_proj", "mlp.fc1", "mlp.fc2")
    return out


def _phi3small(n):
    out = ["model.embed_tokens.weight"] + both("model.", "final_layernorm")
    for i in range(n):
        out += both(f"model.layers.{i}.", "input_layernorm", "post_attention_layernorm", "self_attn.query_key_value", "self_attn.dense", "mlp.up_proj", "mlp.down_proj")
    return out


def _qwen(n):
    out = ["transformer.wte.weight", "transformer.ln_f.weight"]
    for i in range(n):
        out += w(f"transformer.h.{i}.", "ln_1", "ln_2", "attn.c_attn", "attn.c_proj", "mlp.w1", "mlp.w2", "mlp.c_proj") + [f"transformer.h.{i}.attn.c_attn.bias"]
    return out


def _stablelm_epoch(n):
    out = ["model.embed_tokens.weight"] + both("model.", "norm")
    for i in range(n):
        p = f"model.layers.{i}."
        out += both(p, "input_layernorm", "post_attention_layernorm")
        out += w(p, "self_attn.q_proj", "self_attn.k_proj", "self_attn.v_proj", "self_attn.o_proj", "mlp.gate_proj", "mlp.up_proj", "mlp.down_proj")
    return out


HEAD = ["lm_head.weight"]
# arch: (model type, layer count key, names, head (may be left out if tied), optional additions per layer, token tables)
TABLES = {
    "BaichuanForCausalLM": ("baichuan", "num_hidden_layers", lambda n: _llama(n, ("W_pack", "o_proj")) + HEAD, [], [], ["model.embed_tokens.weight", "lm_head.weight"]),
    "ChatGLMModel": ("chatglm", "num_hidden_layers", _chatglm, [], [], ["transformer.embedding.word_embeddings.weight", "transformer.output_layer.weight"]),
    "ExaoneForCausalLM": ("exaone", "num_hidden_layers", lambda n: _exaone(n) + HEAD, [], [], ["transformer.wte.weight", "lm_head.weight"]),
    "InternLM2ForCausalLM": ("internlm2", "num_hidden_layers", _internlm2, ["output.weight"], [], ["model.tok_embeddings.weight", "output.weight"]),
    "JAISLMHeadModel": ("jais", "n_layer", _jais, [], [], ["transformer.wte.weight"]),
    "MixFormerSequentialForCausalLM": ("mixformer-sequential", "n_layer", _phi1, [], ["layers.{1}.mixer.rotary_emb.inv_freq"], ["layers.0.wte.weight", "linear.weight"]),
    "Phi3SmallForCausalLM": ("phi3small", "num_hidden_layers", _phi3small, ["lm_head.weight"], [], ["model.embed_tokens.weight", "lm_head.weight"]),
    "QWenLMHeadModel": ("qwen", "num_hidden_layers", lambda n: _qwen(n) + HEAD, [], [], ["transformer.wte.weight", "lm_head.weight"]),
    "SolarForCausalLM": ("solar", "num_hidden_layers", _llama, ["lm_head.weight"], [], ["model.embed_tokens.weight", "lm_head.weight"]),
    "StableLMEpochForCausalLM": ("stablelm_epoch", "num_hidden_layers", lambda n: _stablelm_epoch(n) + HEAD, [], [],
                                 ["model.embed_tokens.weight", "lm_head.weight"]),
    "LLaMaForCausalLM": ("llama", "num_hidden_layers", _llama, ["lm_head.weight"], [], ["model.embed_tokens.weight", "lm_head.weight"]),
}


@st.composite
def table_cases(draw):
    arch = draw(st.sampled_from(sorted(TABLES)))
    n = draw(st.integers(1, 12))
    slices = None
    if draw(st.booleans()):
        slices = [list(s) for s in draw(st.lists(st.integers(0, n - 1).flatmap(lambda a: st.tuples(st.just(a), st.integers(a + 1, n))), min_size=1, max_size=3))]
    return {"arch": arch, "n": n, "head": draw(st.booleans()), "extra": draw(st.booleans()), "seed": draw(seeds), "slices": slices,
            "shards": draw(st.sampled_from([1, 2])), "fmt": draw(st.sampled_from(["safetensors", "bin"]))}


def register(kind):
    """A stand-in for the configuration class that comes with such a model."""
    import transformers

    try:
        cls = type(f"Config_{kind.replace('-', '_')}", (transformers.PretrainedConfig,), {"model_type": kind})
        transformers.AutoConfig.register(kind, cls)
    except ValueError:
        pass


def tables(case, ctx):
    import json

    import torch

    kind, key, names, head, extra, _emb = TABLES[case["arch"]]
    register(kind)
    n = case["n"]
    have = list(names(n)) + (head if case["head"] else []) + ([e.format(i, i + 1) for e in extra for i in range(n)] if case["extra"] else [])
    root = ctx.tmp()
    path = os.path.join(root, "m")
    os.makedirs(path)
    g = {x: torch.randn(2, 3, generator=torch.Generator().manual_seed(seed_for(case["seed"], x))) for x in have}
    write_tensors(path, g, fmt=case["fmt"], shards=case["shards"])
    cfg = {"model_type": kind, "architectures": [case["arch"]], key: n, "vocab_size": 2, "hidden_size": 3, "num_attention_heads": 1, "tie_word_embeddings": not case["head"]}
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(cfg, f)
    config = {"merge_method": "passthrough", "dtype": "float32"}
    if case["slices"]:
        config["slices"] = [{"sources": [{"model": path, "layer_range": s}]} for s in case["slices"]]
        order = [i for a, b in case["slices"] for i in range(a, b)]
    else:
        config["models"] = [{"model": path}]
        order = list(range(n))
    out = os.path.join(root, "out")
    merge(config, out, lazy_unpickle=False)
    got = read_model(out)
    want = {}
    off = 1 if case["arch"] == "MixFormerSequentialForCausalLM" else 0
    per = {i: {} for i in range(n)}
    loose = {}
    for x, t in g.items():
        hit = re.search(r"(?:^|\.)(\d+)\.", x)
        i = int(hit.group(1)) - off if hit else None
        if i is not None and 0 <= i < n:
            per[i][(x[:hit.start(1)], x[hit.end(1):])] = t
        else:
            loose[x] = t
    for pos, i in enumerate(order):
        for (a, b), t in per[i].items():
            want[f"{a}{pos + off}{b}"] = t
    for x, t in loose.items():
        if off and x.startswith(f"layers.{n + 1}."):
            x = f"layers.{len(order) + 1}." + x.split(".", 2)[2]
        want[x] = t
    require(set(got) == set(want), "lost %s, gained %s", sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4])
    for x, t in want.items():
        require(torch.equal(got[x], t), "%s differs", x)
    with open(os.path.join(out, "config.json")) as f:
        c = json.load(f)
    require(c.get(key) == len(order), "%s is %s, expected %d", key, c.get(key), len(order))
    marks(case, path, ctx)
    ctx.label(case["arch"], "sliced" if case["slices"] else "whole")
    ctx.interesting(len(order) > 1)


def marks(case, path, ctx):
    from mergekit.architecture import arch_info_for_config
    from mergekit.common import ModelReference

    cfg = ModelReference.model_validate(path).config()
    emb = TABLES[case["arch"]][5]
    for x in arch_info_for_config(cfg).all_weights(cfg):
        expected = x.name in emb or (case["arch"] == "MixFormerSequentialForCausalLM" and x.name.endswith(".linear.weight"))
        require(bool(x.is_embed) == expected, "%s is %smarked as an embedding of tokens", x.name, "" if x.is_embed else "not ")


# ---- inference over unknown checkpoints --------------------------------------

ROOTS = ["model.layers", "encoder.block", "decoder.block", "blocks", "a.b.c", "vision.layers", "h", "text.model.layers"]
LEAVES = ["w.weight", "w.bias", "attn.q.weight", "mlp.experts.0.w1.weight", "mlp.experts.1.w1.weight", "mlp.experts.10.w1.weight", "norm", "inner.0.1.x"]
LOOSE = ["embed.weight", "norm.weight", "head.weight", "vision.proj", "model.norm.weight", "encoder.final.bias", "alone", "3.weight", "stem.7", "encoder.block.extra", "a.b.bias"]


@st.composite
def unknown_cases(draw):
    stacks = []
    for root in draw(st.lists(st.sampled_from(ROOTS), min_size=1, max_size=3, unique=True)):
        n = draw(st.sampled_from([1, 2, 3, 11]))
        leaves = draw(st.lists(st.sampled_from(LEAVES), min_size=1, max_size=4, unique=True))
        # which layers have which tensors
        holes = sorted({(draw(st.integers(0, n - 1)), draw(st.sampled_from(leaves))) for _ in range(draw(st.sampled_from([0, 0, 1, 3])))})
        stacks.append({"root": root, "n": n, "leaves": leaves, "holes": [list(h) for h in holes]})
    loose = draw(st.lists(st.sampled_from(LOOSE), max_size=4, unique=True))
    k = draw(st.sampled_from([1, 2, 2, 3]))
    return {"stacks": stacks, "loose": loose, "seed": draw(seeds), "models": [{"weight": draw(st.sampled_from([1.0, 0.5, 2.0])), "shards": draw(st.sampled_from([1, 1, 3]))} for _ in range(k)],
            "missing": [[draw(st.integers(0, k - 1)), draw(st.integers(0, 60))] for _ in range(draw(st.sampled_from([0, 0, 1, 2])))],
            "base": draw(st.booleans()), "config": draw(st.sampled_from(["llama", "registered", "gpt2"]))}


def unknown(case, ctx):
    import json

    import torch

    names = sorted({f"{s['root']}.{i}.{leaf}" for s in case["stacks"] for i in range(s["n"]) for leaf in s["leaves"] if [i, leaf] not in s["holes"]} | set(case["loose"]))
    if not names:
        raise Rejected
    k = len(case["models"])
    sets = [set(names) for _ in range(k)]
    if k > 1:
        for m, j in case["missing"]:
            x = names[j % len(names)]
            if sum(x in s for s in sets) > 1:
                sets[m].discard(x)
    root = ctx.tmp()
    kind = {"llama": "llama", "gpt2": "gpt2", "registered": "vp-unknown"}[case["config"]]
    register("vp-unknown")
    paths, data = [], []
    for i, s in enumerate(sets):
        if not s:
            raise Rejected
        p = os.path.join(root, f"m{i}")
        os.makedirs(p)
        d = {x: torch.randn(2, 3, generator=torch.Generator().manual_seed(seed_for(case["seed"] + i, x))) for x in s}
        write_tensors(p, d, shards=case["models"][i]["shards"])
        with open(os.path.join(p, "config.json"), "w") as f:
            json.dump({"model_type": kind, "architectures": ["VpUnknownForCausalLM"], "hidden_size": 4, "num_attention_heads": 1, "n_head": 1, "n_embd": 4, "n_layer": 1, "intermediate_size": 4,
                       "num_hidden_layers": 1, "vocab_size": 2}, f)
        paths.append(p)
        data.append(d)
    config = {"merge_method": "linear", "dtype": "float32", "models": [{"model": p, "parameters": {"weight": m["weight"]}} for p, m in zip(paths, case["models"])]}
    if case["base"]:
        config["base_model"] = paths[0]
    out = os.path.join(root, "out")
    merge(config, out, lazy_unpickle=False)
    got = read_model(out)
    require(set(got) == set().union(*sets), "lost %s, gained %s", sorted(set().union(*sets) - set(got))[:4], sorted(set(got) - set().union(*sets))[:4])
    for x, t in got.items():
        on = [(m["weight"], d[x]) for m, d in zip(case["models"], data) if x in d]
        ref = sum(a * b.double() for a, b in on) / sum(a for a, _ in on)
        require(torch.allclose(t.double(), ref, rtol=1e-5, atol=1e-6), "%s is not the average of the models that have it", x)
    ctx.label(f"{len(case['stacks'])} stacks", case["config"], "missing" if any(s != sets[0] for s in sets) else "same tensors", "holes" if any(s["holes"] for s in case["stacks"]) else "no holes")
    ctx.interesting(len(names) > 2)


def prepare():
    from vp.e2e import warm

    warm()


TESTS = [Test("real-" + a, real_cases(a), real, quick=5, thorough=80, budget=60, rule="more than one model") for a in list(zoo.KNOWN) + list(zoo.OTHER)] + [
    Test("layers", layer_cases, layers, quick=120, thorough=2500, shards=4, rule="more than one output layer"),
    Test("tables", table_cases, tables, quick=160, thorough=3000, shards=4, rule="more than one output layer"),
    Test("unknown", unknown_cases, unknown, quick=160, thorough=3000, shards=4, rule="more than two tensors"),
]
