"""Helpers of a demonstration: tiny llama checkpoints and merges over them."""
import json
import os

import torch
from safetensors.torch import load_file, save_file

H, I, V = 4, 6, 8


def table(layers=1, vocab=V, head=True):
    t = {"model.embed_tokens.weight": (vocab, H), "model.norm.weight": (H,)}
    for l in range(layers):
        for k, s in {"input_layernorm.weight": (H,), "post_attention_layernorm.weight": (H,), "self_attn.q_proj.weight": (H, H),
                     "self_attn.k_proj.weight": (H, H), "self_attn.v_proj.weight": (H, H), "self_attn.o_proj.weight": (H, H),
                     "mlp.gate_proj.weight": (I, H), "mlp.up_proj.weight": (I, H), "mlp.down_proj.weight": (H, I)}.items():
            t[f"model.layers.{l}.{k}"] = s
    if head:
        t["lm_head.weight"] = (vocab, H)
    return t


def model(path, layers=1, seed=0, vocab=V, head=True, dtype=torch.float32, tensors=None, **extra):
    os.makedirs(path)
    cfg = {"architectures": ["LlamaForCausalLM"], "model_type": "llama", "hidden_size": H, "intermediate_size": I, "num_hidden_layers": layers,
           "num_attention_heads": 2, "num_key_value_heads": 2, "vocab_size": vocab, "tie_word_embeddings": not head,
           "dtype": str(dtype).split(".")[1], "max_position_embeddings": 32}
    cfg.update(extra)
    with open(path + "/config.json", "w") as f:
        json.dump(cfg, f)
    if tensors is None:
        g = torch.Generator().manual_seed(seed)
        tensors = {k: torch.randn(s, generator=g).to(dtype) for k, s in table(layers, vocab, head).items()}
    save_file(tensors, path + "/model.safetensors", metadata={"format": "pt"})
    return tensors


def merge(cfg, out, **options):
    from mergekit.config import MergeConfiguration
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    o = {"copy_tokenizer": False, "quiet": True, "write_model_card": False}
    o.update(options)
    run_merge(MergeConfiguration.model_validate(cfg), out, options=MergeOptions(**o))
    return read(out)


def read(out):
    res = {}
    for f in sorted(os.listdir(out)):
        if f.endswith(".safetensors"):
            res.update(load_file(os.path.join(out, f)))
    return res


def tokenizer(path, tokens, special=()):
    """A word level tokenizer."""
    from tokenizers import Tokenizer, models, pre_tokenizers
    from transformers import PreTrainedTokenizerFast

    t = Tokenizer(models.BPE(vocab={k: i for i, k in enumerate(tokens)}, merges=[]))
    t.pre_tokenizer = pre_tokenizers.Whitespace()
    t.add_special_tokens(list(special))
    PreTrainedTokenizerFast(tokenizer_object=t).save_pretrained(path)
