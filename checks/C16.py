"""C16: output directories are self-consistent and carry the right side files."""
import collections
import json
import os

import torch
import yaml
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import same
from vp.models import config_json, dims, merge, read_config, read_model, state, write_tensors
from vp.recipes import RANDOM, config, difference, recipes, snapshot, vocab_of
from vp.toks import read_vocab, template_of, write_tokenizer

PROPERTY = "C16"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated recipes with differing vocabularies, tying, dtypes and chat templates; the output directory is "
             "checked against itself, loaded with the model library, and its recorded recipe is run again")
ASSUMPTIONS = [
    "the recorded recipe of a random method reproduces the merge under the same seed",
    "loading is checked with the model library installed here, for llama and gpt2",
    "among equally common chat templates any may be chosen",
]

BUILTIN = ["alpaca", "chatml", "exaone", "llama3", "mistral"]
GOOD = ["{{ messages[0]['content'] }}", "{% for m in messages %}{{ m.content }}{% endfor %}",
        "{{ messages }}" + "/ literal text with / slashes and .. dots" * 2, "{{ messages }}" + " padding" * 60,
        "  {{ messages[0]['content'] }}  surrounded\n"]
BAD = ["nope", "chat_ml", "{{x}}", "a sentence that is long enough but not a template", "ChatML", "chatml.jinja", "x" * 300]
FILES = ["special_tokens_map.json", "added_tokens.json", "generation_config.json", "chat_template.jinja"]


@st.composite
def cases(draw):
    r = draw(recipes())
    if r["arch"] == "unknown" and draw(st.booleans()):
        r["arch"] = "llama"
    r["templates"] = r["templates"] or [None] * r["n"]
    r["chat_template"] = draw(st.one_of(st.none(), st.just("auto"), st.just("auto"), st.sampled_from(BUILTIN), st.sampled_from(GOOD),
                                        st.sampled_from(BAD)))
    if draw(st.booleans()):
        r["templates"] = [draw(st.sampled_from(["{{ messages }} a", " {{ messages }} a\n", "{{ messages }} b", "{{ messages }} c", None]))
                          for _ in range(r["n"])]
    pre = draw(st.sampled_from(["", "", "torch."]))
    for k in ("cfg_dtype", "out_dtype"):
        if r[k]:
            r[k] = pre + r[k]
    same_v = r["method"]["name"] in ("passthrough", "sce", "multislerp", "ramplus_tl", "nearswap") or r["arch"] == "unknown" or r["tok"]
    rows = [0 if same_v else draw(st.sampled_from([0, 0, 0, 2, 3])) for _ in range(r["n"])]
    if r["base"] is not None:  # methods on deltas refuse models with fewer words than the base
        rows = [max(x, rows[r["base"]]) for x in rows]
    return {"r": r, "extra_rows": rows, "tied": [draw(st.sampled_from([False, False, True])) for _ in range(r["n"])],
            "files": [draw(st.lists(st.sampled_from(FILES), max_size=3, unique=True)) for _ in range(r["n"])],
            "has_tok": [draw(st.sampled_from([True, True, False])) for _ in range(r["n"])],
            "copy": draw(st.sampled_from([True, True, True, False])), "card": draw(st.sampled_from([True, True, False])),
            "source_given": draw(st.booleans()), "rseed": draw(st.integers(0, 10**6)), "safe": draw(st.booleans())}


def build(case, root):
    r = case["r"]
    arch = "llama" if r["arch"] == "unknown" else r["arch"]
    paths, states = [], []
    for i in range(r["n"]):
        v = vocab_of(r, i)
        d = dims({"layers": r["layers"], "vocab": len(v) + case["extra_rows"][i]})
        sd = state(arch, d, r["seed"] + 31 * i, "normal", r["dtype"])
        tied = case["tied"][i] and r["arch"] == "llama"
        if tied:
            sd.pop("lm_head.weight", None)
        cfg = config_json(arch, d, r["dtype"], tie=tied)
        if r["arch"] == "unknown":
            cfg["architectures"] = ["VpNovelForCausalLM"]
            sd = {k.replace("self_attn", "mixer").replace("model.layers", "trunk.blocks"): t for k, t in sd.items()}
        p = os.path.join(root, f"m{i}")
        os.makedirs(p)
        with open(os.path.join(p, "config.json"), "w") as f:
            json.dump(cfg, f)
        write_tensors(p, sd, r["fmt"], r["shards"])
        if case["has_tok"][i]:
            tmpl = r["templates"][i]
            as_file = "chat_template.jinja" in case["files"][i]
            write_tokenizer(p, v, chat_template=None if as_file else tmpl)
            for fn in case["files"][i]:
                if fn == "chat_template.jinja":
                    if tmpl is None:
                        continue
                    text = tmpl
                else:
                    text = json.dumps({} if fn == "added_tokens.json" else {"unk_token": "<unk>"} if fn.startswith("special") else {"eos_token_id": 40 + i})
                with open(os.path.join(p, fn), "w") as f:
                    f.write(text)
        paths.append(p)
        states.append(sd)
    return paths, states


def effective_template(p):
    t = template_of(p)
    return t


def package(case, ctx):
    r = case["r"]
    root = ctx.tmp()
    used = r["order"] if r["method"]["name"] != "passthrough" else (
        [r["order"][0]] if r["arch"] == "unknown" else list(dict.fromkeys(i for i, _ in r["slices"])))
    donor = r["base"] if r["base"] is not None else used[0]
    ref = list(dict.fromkeys(([r["base"]] if r["base"] is not None else []) + list(used)))
    case["has_tok"][donor] = True
    if r["tok"]:
        case["has_tok"] = [True] * r["n"]
    paths, states = build(case, root)
    cfg = config(r, paths)
    text = yaml.safe_dump(cfg)
    out = os.path.join(root, "out")
    opts = {"copy_tokenizer": case["copy"], "write_model_card": case["card"], "safe_serialization": case["safe"],
            "random_seed": case["rseed"]}
    tmpl = r["chat_template"]
    if tmpl in BAD:
        try:
            merge(cfg, out, **opts)
        except RuntimeError as e:
            require("template" in str(e).lower(), "rejected for another reason: %s", e)
            ctx.label("invalid_template")
            ctx.interesting()
            return
        require(False, "invalid chat template %r was accepted", tmpl[:60])
    if r["arch"] == "unknown" and r["base"] is None and r["method"]["name"] == "passthrough" and len(used) > 1:
        raise Rejected()
    merge(cfg, out, **opts)
    c = read_config(out)
    got = read_model(out)

    # dtype
    want = r["out_dtype"] or r["cfg_dtype"]
    if want:
        want = want.replace("torch.", "")
        require(c.get("dtype", c.get("torch_dtype")) == want, "config dtype %r, requested %r", c.get("dtype"), want)
        for k, t in got.items():
            require(str(t.dtype) == "torch." + want, "%s stored as %s, requested %s", k, t.dtype, want)
        ctx.label("dtype")
    # shapes
    layers_key, emb = ("n_layer", "transformer.wte.weight") if r["arch"] == "gpt2" else ("num_hidden_layers", "model.embed_tokens.weight")
    pat = {"gpt2": "transformer.h.", "llama": "model.layers.", "unknown": "trunk.blocks."}[r["arch"]]
    idx = {int(k[len(pat):].split(".")[0]) for k in got if k.startswith(pat)}
    require(idx == set(range(c[layers_key])), "config says %s layers, tensors are of layers %s", c[layers_key], sorted(idx))
    require(c["vocab_size"] == got[emb].shape[0], "config says %s words, embedding has %d rows", c["vocab_size"], got[emb].shape[0])
    if "lm_head.weight" in got:
        require(got["lm_head.weight"].shape[0] == c["vocab_size"], "output head has %d rows for %s words", got["lm_head.weight"].shape[0],
                c["vocab_size"])
    # it loads, and what loads is what was written
    if r["arch"] != "unknown":
        import transformers

        m, info = transformers.AutoModelForCausalLM.from_pretrained(out, output_loading_info=True)
        for k in ("missing_keys", "unexpected_keys", "mismatched_keys", "error_msgs"):
            bad = [x for x in (info.get(k) or [])]
            if k == "missing_keys" and c.get("tie_word_embeddings", r["arch"] == "gpt2"):
                bad = [x for x in bad if x != "lm_head.weight"]
            require(not bad, "%s on loading: %s", k, bad[:4])
        sd = m.state_dict()
        all_tied = all(case["tied"][i] for i in ref)
        for k, t in got.items():
            if k == "lm_head.weight" and (r["arch"] == "gpt2" or all_tied):
                continue
            require(same(sd[k].to(t.dtype), t), "%s: the loaded model does not have the stored value", k)
        ctx.label("loaded")
        if any(case["tied"][i] for i in ref) and not all_tied and r["arch"] == "llama":
            ctx.label("mixed_tying")
    # chat template and tokenizer files
    built = bool(r["tok"])
    have = [i for i in ref if case["has_tok"][i]]
    t_out = template_of(out)
    if built or case["copy"]:
        if built:
            pass
        else:
            require(os.path.exists(os.path.join(out, "tokenizer.json")), "no tokenizer was saved")
            require(read_vocab(out) == read_vocab(paths[donor]), "the saved tokenizer is not the donor's")
            if not tmpl:
                for fn in sorted(set(os.listdir(paths[donor])) & set(FILES + ["tokenizer.json", "tokenizer_config.json"])):
                    with open(os.path.join(paths[donor], fn), "rb") as f, open(os.path.join(out, fn), "rb") as g:
                        require(f.read() == g.read(), "%s differs from the donor's", fn)
                extra = [fn for fn in FILES if os.path.exists(os.path.join(out, fn)) and not os.path.exists(os.path.join(paths[donor], fn))
                         and fn != "generation_config.json"]
                require(not extra, "files the donor does not have: %s", extra)
        if tmpl is None:
            exp = {template_of(paths[donor])}
        elif tmpl == "auto":
            votes = collections.Counter(template_of(paths[i]).strip() for i in have if template_of(paths[i]))
            top = max(votes.values(), default=0)
            exp = {t for t in votes if votes[t] == top} if votes else {template_of(paths[donor])}
            if len(votes) > 1:
                ctx.label("auto_vote")
        elif tmpl in BUILTIN:
            import importlib.resources

            from mergekit._data import chat_templates

            exp = {importlib.resources.files(chat_templates).joinpath(tmpl + ".jinja").read_text()}
        else:
            exp = {tmpl}
        require(t_out in exp, "chat template is %r, expected one of %r (asked for %r)", str(t_out)[:120], [str(x)[:120] for x in exp],
                str(tmpl)[:40])
        ctx.label("template_" + ("none" if tmpl is None else tmpl if tmpl == "auto" else "builtin" if tmpl in BUILTIN else "literal"))
    else:
        left = [f for f in os.listdir(out) if "token" in f]
        require(not left, "tokenizer files although none were asked for: %s", left)
    # recorded recipe
    require(os.path.exists(os.path.join(out, "mergekit_config.yml")) == case["card"], "recorded recipe present: %s", not case["card"])
    if case["card"]:
        with open(os.path.join(out, "mergekit_config.yml")) as f:
            rec = f.read()
        with open(os.path.join(out, "README.md"), encoding="utf-8") as f:
            card = f.read()
        require(rec.strip() in card, "the card does not hold the recipe")
        for i in ref:
            require(paths[i] in card, "the card does not mention %s", paths[i])
        again = os.path.join(root, "again")
        merge(rec, again, **opts)
        tk = built or case["copy"]
        d = difference(snapshot(out, tokenizer=tk), snapshot(again, tokenizer=tk))
        require(d is None, "the recorded recipe does not reproduce the merge: %s", d)
        ctx.label("recipe")
    _ = text
    ctx.label(r["method"]["name"], r["arch"], "built" if built else "copied" if case["copy"] else "no_tokenizer")
    ctx.interesting(bool(tmpl) or len(set(case["extra_rows"])) > 1 or any(case["tied"]) or bool(want))


def prepare():
    from vp.e2e import warm

    warm()
    import transformers

    for n in ("AutoTokenizer", "AutoModelForCausalLM", "LlamaForCausalLM", "GPT2LMHeadModel", "PreTrainedTokenizerFast"):
        getattr(transformers, n)


TESTS = [Test("package", cases, package, quick=480, thorough=12000, shards=6, budget=100,
              rule="a template, dtype, differing vocabulary sizes or tied embeddings are involved")]
assert RANDOM and torch
