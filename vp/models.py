"""Tiny checkpoints on disk, and merges over them, without instantiating models.

The tensor tables below are written out independently of mergekit's own
architecture definitions, so they can serve as a reference.
"""
import json
import os

import safetensors.torch
import torch
import yaml

from vp.gen import DTYPES, make


def dims(d):
    """Sizes of a tiny model; d overrides."""
    r = {"hidden": 4, "inter": 6, "heads": 2, "kv": 1, "vocab": 10, "layers": 2}
    r.update(d or {})
    return r


def llama_like(d, bias=False):
    h, i, nh, kv = d["hidden"], d["inter"], d["heads"], d["kv"]
    hd = h // nh
    pre = {"model.embed_tokens.weight": (d["vocab"], h)}
    layer = {
        "input_layernorm.weight": (h,),
        "self_attn.q_proj.weight": (h, h),
        "self_attn.k_proj.weight": (kv * hd, h),
        "self_attn.v_proj.weight": (kv * hd, h),
        "self_attn.o_proj.weight": (h, h),
        "post_attention_layernorm.weight": (h,),
        "mlp.gate_proj.weight": (i, h),
        "mlp.up_proj.weight": (i, h),
        "mlp.down_proj.weight": (h, i),
    }
    if bias:
        layer.update({"self_attn.q_proj.bias": (h,), "self_attn.k_proj.bias": (kv * hd,),
                      "self_attn.v_proj.bias": (kv * hd,)})
    post = {"model.norm.weight": (h,), "lm_head.weight": (d["vocab"], h)}
    return pre, "model.layers.{}.", layer, post


def gpt2_like(d):
    h, i = d["hidden"], d["inter"]
    pre = {"transformer.wte.weight": (d["vocab"], h), "transformer.wpe.weight": (16, h)}
    layer = {
        "attn.c_attn.weight": (h, 3 * h), "attn.c_attn.bias": (3 * h,),
        "attn.c_proj.weight": (h, h), "attn.c_proj.bias": (h,),
        "ln_1.weight": (h,), "ln_1.bias": (h,), "ln_2.weight": (h,), "ln_2.bias": (h,),
        "mlp.c_proj.weight": (i, h), "mlp.c_proj.bias": (h,),
        "mlp.c_fc.weight": (h, i), "mlp.c_fc.bias": (i,),
    }
    post = {"transformer.ln_f.weight": (h,), "transformer.ln_f.bias": (h,)}
    return pre, "transformer.h.{}.", layer, post


ARCH = {
    "llama": ("LlamaForCausalLM", "llama", lambda d: llama_like(d)),
    "mistral": ("MistralForCausalLM", "mistral", lambda d: llama_like(d)),
    "qwen2": ("Qwen2ForCausalLM", "qwen2", lambda d: llama_like(d, bias=True)),
    "gpt2": ("GPT2LMHeadModel", "gpt2", gpt2_like),
}
EMBEDS = {"model.embed_tokens.weight", "lm_head.weight", "transformer.wte.weight"}
TIED = {"llama", "qwen2", "mistral"}  # lm_head may be absent and tied


def tensor_table(arch, d):
    """Ordered {name: shape} of a checkpoint of this architecture."""
    d = dims(d)
    pre, fmt, layer, post = ARCH[arch][2](d)
    out = dict(pre)
    for l in range(d["layers"]):
        for k, s in layer.items():
            out[fmt.format(l) + k] = s
    out.update(post)
    return out


def split_table(arch, d):
    d = dims(d)
    pre, fmt, layer, post = ARCH[arch][2](d)
    return list(pre), fmt, list(layer), list(post)


def config_json(arch, d, dtype="float32", tie=False, **extra):
    d = dims(d)
    cls, mt, _ = ARCH[arch]
    if mt == "gpt2":
        c = {"architectures": [cls], "model_type": mt, "n_embd": d["hidden"], "n_inner": d["inter"],
             "n_layer": d["layers"], "n_head": d["heads"], "n_positions": 16, "vocab_size": d["vocab"],
             "dtype": dtype, "bos_token_id": 1, "eos_token_id": 2}
    else:
        c = {"architectures": [cls], "model_type": mt, "hidden_size": d["hidden"], "intermediate_size": d["inter"],
             "num_hidden_layers": d["layers"], "num_attention_heads": d["heads"], "num_key_value_heads": d["kv"],
             "vocab_size": d["vocab"], "max_position_embeddings": 64, "tie_word_embeddings": tie, "dtype": dtype,
             "rms_norm_eps": 1e-6}
    c.update(extra)
    return c


def seed_for(seed, name):
    h = 2166136261
    for ch in f"{seed}|{name}".encode():
        h = (h ^ ch) * 16777619 & 0xFFFFFFFF
    return h & 0x7FFFFFFF


def state(arch, d, seed, kind="normal", dtype="float32", scale=1.0, drop=()):
    return {
        n: make(s, seed_for(seed, n), kind, DTYPES[dtype], scale)
        for n, s in tensor_table(arch, d).items()
        if n not in drop
    }


def write_model(path, arch, d, tensors, dtype="float32", tie=False, fmt="safetensors", shards=1, **extra):
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(config_json(arch, d, dtype, tie, **extra), f)
    write_tensors(path, tensors, fmt, shards)
    return path


def write_tensors(path, tensors, fmt="safetensors", shards=1):
    """Independent checkpoint writer (not mergekit's)."""
    ext, base = ("safetensors", "model") if fmt == "safetensors" else ("bin", "pytorch_model")

    def save(obj, fn):
        obj = {k: v.contiguous().clone() for k, v in obj.items()}
        if fmt == "safetensors":
            safetensors.torch.save_file(obj, fn, metadata={"format": "pt"})
        else:
            torch.save(obj, fn)

    keys = list(tensors)
    shards = max(1, min(shards, len(keys)))
    if shards == 1:
        save(tensors, os.path.join(path, f"{base}.{ext}"))
        return
    wm = {}
    for i in range(shards):
        fn = f"{base}-{i + 1:05d}-of-{shards:05d}.{ext}"
        part = {k: tensors[k] for k in keys[i::shards]}
        save(part, os.path.join(path, fn))
        wm.update({k: fn for k in part})
    with open(os.path.join(path, f"{base}.{ext}.index.json"), "w") as f:
        json.dump({"metadata": {"total_size": sum(t.numel() * t.element_size() for t in tensors.values())},
                   "weight_map": wm}, f)


def read_model(path):
    """All tensors of a checkpoint directory, read with the standard rules
    (index if present, else the single file), independent of mergekit."""
    for base, ext in (("model", "safetensors"), ("pytorch_model", "bin")):
        single = os.path.join(path, f"{base}.{ext}")
        index = single + ".index.json"
        if os.path.exists(single):
            files = [single]
        elif os.path.exists(index):
            with open(index) as f:
                wm = json.load(f)["weight_map"]
            files = sorted({os.path.join(path, v) for v in wm.values()})
        else:
            continue
        out = {}
        for fn in files:
            out.update(safetensors.torch.load_file(fn) if ext == "safetensors" else torch.load(fn, weights_only=True))
        return out
    raise FileNotFoundError(f"no model in {path}: {os.listdir(path)}")


def read_config(path):
    with open(os.path.join(path, "config.json")) as f:
        return json.load(f)


def merge(config, out, **options):
    """Run a merge through mergekit's main entry point."""
    from mergekit.config import MergeConfiguration
    from mergekit.io.tasks import LoaderCache
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    opts = {"quiet": True, "copy_tokenizer": False, "write_model_card": False}
    opts.update(options)
    fresh = opts.pop("fresh_cache", True)
    if fresh:
        LoaderCache().loaders.clear()
    cfg = MergeConfiguration.model_validate(yaml.safe_load(config) if isinstance(config, str) else config)
    run_merge(cfg, out, options=MergeOptions(**opts))
    return out
