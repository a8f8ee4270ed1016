"""Small tokenizers on disk, written without transformers."""
import json
import os


def tokenizer_json(vocab, added=(), specials=(), kind="BPE", merges=()):
    """vocab: tokens of the model part in id order; added: [(token, id, special)]."""
    ids = {t: i for i, t in enumerate(vocab)}
    if kind == "BPE":
        model = {"type": "BPE", "dropout": None, "unk_token": vocab[0] if vocab else None, "continuing_subword_prefix": None,
                 "end_of_word_suffix": None, "fuse_unk": False, "byte_fallback": False, "ignore_merges": False,
                 "vocab": ids, "merges": [list(m) for m in merges]}
    else:
        model = {"type": "WordLevel", "vocab": ids, "unk_token": vocab[0]}
    return {
        "version": "1.0", "truncation": None, "padding": None,
        "added_tokens": [{"id": i, "content": t, "single_word": False, "lstrip": False, "rstrip": False,
                          "normalized": not sp, "special": bool(sp)} for t, i, sp in added],
        "normalizer": None, "pre_tokenizer": {"type": "Whitespace"} if kind != "BPE" else None,
        "post_processor": None, "decoder": None, "model": model,
    }


def write_tokenizer(path, vocab, added=(), chat_template=None, kind="BPE", merges=(), **cfg):
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, "tokenizer.json"), "w") as f:
        json.dump(tokenizer_json(vocab, added, kind=kind, merges=merges), f)
    c = {"tokenizer_class": "PreTrainedTokenizerFast", "unk_token": vocab[0] if vocab else None, "model_max_length": 64,
         "clean_up_tokenization_spaces": False}
    if chat_template is not None:
        c["chat_template"] = chat_template
    c.update(cfg)
    with open(os.path.join(path, "tokenizer_config.json"), "w") as f:
        json.dump(c, f)


def read_vocab(path):
    """{token: id} of a tokenizer directory, from tokenizer.json alone."""
    with open(os.path.join(path, "tokenizer.json")) as f:
        d = json.load(f)
    v = dict(d["model"]["vocab"])
    for e in d["added_tokens"]:
        v[e["content"]] = e["id"]
    return v


def template_of(path):
    """The chat template a tokenizer directory carries, wherever it is stored."""
    p = os.path.join(path, "chat_template.jinja")
    if os.path.exists(p):
        with open(p) as f:
            return f.read()
    p = os.path.join(path, "tokenizer_config.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f).get("chat_template")
    return None
