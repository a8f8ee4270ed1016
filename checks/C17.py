"""C17: tokenizer transplants keep every shared token's embedding."""
import json
import os

import torch
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import DTYPES, close, maxdiff, rng, same
from vp.models import ARCH, config_json, dims, read_config, read_model, state, tensor_table, write_tensors
from vp.toks import read_vocab, write_tokenizer

PROPERTY = "C17"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated pairs of models and vocabularies (word starts, bytes, prefixes, special roles, padded and short "
             "embeddings, tied heads) run through the command; output rows compared with a reference over token strings")
ASSUMPTIONS = [
    "special tokens are the same when they have the same role (bos, eos, unk, pad), other tokens when text and word-start mark agree",
    "tokenizers are fast BPE tokenizers with contiguous ids",
    "fewer shared tokens than the method needs is refused",
]

ROLES = ["bos", "eos", "pad"]
# (word start, text)
POOL = [(False, t) for t in ["a", "b", "A", "B", "é", "ab", "abc", "abcd", "foo", "foob", "foobar", "x", "xy", "1", "<0x41>", "<0x42>", "<0xE9>",
                             "<0x61>", "<0x7A>", "z", "<|t|>"]] + \
       [(True, t) for t in ["a", "ab", "abc", "foo", "foobar", "x", "A", ""]]
CLASSES = {"PreTrainedTokenizerFast": "Ġ", "LlamaTokenizerFast": "▁", "Qwen2TokenizerFast": "Ġ", "GPT2TokenizerFast": "Ġ"}
METHODS = ["omp", "omp", "omp", "common_interpolation", "subword", "mean", "zero", "randn", "john_hewitt", "landmark_pca", "stb", "mp_rope"]


@st.composite
def models(draw):
    arch = draw(st.sampled_from(["llama", "llama", "mistral", "qwen2", "gpt2"]))
    toks = draw(st.lists(st.sampled_from(list(range(len(POOL)))), min_size=3, max_size=16, unique=True))
    roles = {"unk": "<unk>"}
    for r in ROLES:
        roles[r] = draw(st.sampled_from([None, f"<{r}>", f"<{r}>", f"<|{r}|>"]))
    cls = draw(st.sampled_from(list(CLASSES)))
    if arch == "qwen2" and cls == "LlamaTokenizerFast":
        cls = "Qwen2TokenizerFast"
    if cls != "PreTrainedTokenizerFast" or arch == "qwen2":  # these classes add default tokens for missing roles
        for r in ROLES:
            roles[r] = roles[r] or f"<{r}>"
    return {"arch": arch, "tokens": toks, "roles": roles, "cls": cls, "tied": draw(st.booleans()),
            "extra_rows": draw(st.sampled_from([0, 0, 0, 1, 5, -1, -2])), "hidden": draw(st.sampled_from([4, 4, 8])),
            "dtype": draw(st.sampled_from(["float32", "float32", "bfloat16"])), "perm": draw(st.integers(0, 10**4)),
            "fmt": draw(st.sampled_from(["safetensors", "bin"])), "shards": draw(st.sampled_from([1, 1, 3]))}


@st.composite
def cases(draw):
    c = {"m": draw(models()), "d": draw(models()), "seed": draw(st.integers(0, 10**6)), "method": draw(st.sampled_from(METHODS)),
         "k": draw(st.integers(1, 4)), "prefix": draw(st.sampled_from(["no", "no", "yes", "embed", "lm_head"])),
         "byte": draw(st.sampled_from(["no", "yes", "embed", "lm_head"])), "batch": draw(st.sampled_from([512, -1, 1, 2])),
         "cos": draw(st.booleans()), "scheme": draw(st.sampled_from(["distance_proportional", "barycentric", "least_squares"])),
         "sub": draw(st.sampled_from(["mean", "sum", "weighted_mean", "first_last"])),
         "noise": draw(st.sampled_from([None, None, None, 0.1])), "scale": draw(st.sampled_from([None, None, 0.5])),
         "clone": draw(st.booleans()), "shard_out": draw(st.sampled_from([None, "1"]))}
    # most pairs share most of their tokens
    if draw(st.integers(0, 3)):
        both = draw(st.lists(st.sampled_from(list(range(len(POOL)))), min_size=5, max_size=9, unique=True))
        for x in (c["m"], c["d"]):
            x["tokens"] = both + [t for t in x["tokens"] if t not in both][:6]
    if c["method"] == "mp_rope":
        for x in (c["m"], c["d"]):
            if x["arch"] == "gpt2":
                x["arch"] = "llama"
    return c


def vocabulary(m):
    """Token strings in id order, and what each of them stands for."""
    mark = CLASSES[m["cls"]]
    toks, means = [], []
    for r, t in m["roles"].items():
        if t is not None:
            toks.append(t)
            means.append(("role", r))
    plain = [POOL[i] for i in m["tokens"]]
    order = torch.randperm(len(plain), generator=rng(m["perm"])).tolist()
    for i in order:
        ws, t = plain[i]
        toks.append((mark if ws else "") + t)
        means.append(("word", t) if ws else ("text", t))
    return toks, means


def build(m, path, seed):
    toks, means = vocabulary(m)
    tied = m["tied"] or m["arch"] == "gpt2"
    rows = max(2, len(toks) + m["extra_rows"])
    d = dims({"layers": 1, "vocab": rows, "hidden": m["hidden"], "inter": 6, "heads": 2, "kv": 2})
    sd = state(m["arch"], d, seed, "normal", m["dtype"])
    if tied:
        sd.pop("lm_head.weight", None)
    os.makedirs(path)
    kw = {f"{r}_token": t for r, t in m["roles"].items() if t}
    ids = {f"{r}_token_id": toks.index(t) if t else None for r, t in m["roles"].items() if r != "unk"}
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(config_json(m["arch"], d, m["dtype"], tie=tied, **ids), f)
    write_tensors(path, sd, m["fmt"], m["shards"])
    specials = [(t, toks.index(t), True) for t in m["roles"].values() if t]
    write_tokenizer(path, toks, specials, tokenizer_class=m["cls"], **kw)
    return {"toks": toks, "means": means, "rows": rows, "sd": sd, "tied": tied, "ids": ids}


EMB = {"llama": "model.embed_tokens.weight", "mistral": "model.embed_tokens.weight", "qwen2": "model.embed_tokens.weight",
       "gpt2": "transformer.wte.weight"}


def byte_match(mean):
    kind, t = mean
    if kind != "text":
        return None
    if len(t) == 1 and ord(t) < 256:
        return ("text", f"<0x{ord(t):02X}>")
    if len(t) == 6 and t.startswith("<0x") and t.endswith(">"):
        return ("text", chr(int(t[3:5], 16)))
    return None


def prefixes(mean):
    kind, t = mean
    if kind == "role":
        return []
    return [(kind, t[:i]) for i in range(len(t) - 1, 0, -1)]


def transplant(case, ctx):
    from mergekit.io.tasks import LoaderCache
    from mergekit.scripts.tokensurgeon import main

    root = ctx.tmp()
    pm, pd, out = (os.path.join(root, x) for x in ("model", "donor", "out"))
    M = build(case["m"], pm, case["seed"])
    Dn = build(case["d"], pd, case["seed"] + 500)
    import transformers

    for p, x in ((pm, M), (pd, Dn)):
        if transformers.AutoTokenizer.from_pretrained(p).get_vocab() != {t: i for i, t in enumerate(x["toks"])}:
            raise Rejected()
    args = [pm, pd, out, "-a", case["method"], "-k", str(case["k"]), "-pm", case["prefix"], "-bm", case["byte"], "--batch-size", str(case["batch"]),
            "-w", case["scheme"], "-s", case["sub"], "--cosine-similarity" if case["cos"] else "--no-cosine-similarity",
            "--random-seed", str(case["seed"])]
    if case["noise"]:
        args += ["--new-vocab-noise", str(case["noise"])]
    if case["scale"]:
        args += ["--new-vocab-scale", str(case["scale"])]
    if case["clone"]:
        args += ["--clone-tensors"]
    if case["shard_out"]:
        args += ["--out-shard-size", "400"]
    have = {m: i for i, m in enumerate(M["means"]) if i < M["rows"]}
    don = {m: i for i, m in enumerate(Dn["means"]) if i < Dn["rows"]}
    shared = sorted((m for m in have if m in don), key=lambda m: don[m])
    LoaderCache().loaders.clear()
    need = {"omp": case["k"], "common_interpolation": case["k"], "mp_rope": case["k"], "stb": max(case["k"], 1)}.get(case["method"], 0)
    if case["method"] == "landmark_pca":
        need = min(case["m"]["hidden"], case["d"]["hidden"])
    if need > len(shared):
        raise Rejected()
    main.main(args, standalone_mode=False)
    got = read_model(out)
    cfg = read_config(out)
    emb_name = EMB[case["m"]["arch"]]
    size = len(Dn["toks"])
    require(cfg["vocab_size"] == size, "config says %s words, the donor has %d", cfg["vocab_size"], size)
    for r, i in Dn["ids"].items():
        require(cfg.get(r) == i, "%s is %s, the donor's is %s", r, cfg.get(r), i)
    require(read_vocab(out) == {t: i for i, t in enumerate(Dn["toks"])}, "the output tokenizer is not the donor's")
    require(set(got) == set(M["sd"]), "tensors differ: %s", sorted(set(got) ^ set(M["sd"])))
    for n, t in M["sd"].items():
        if n not in (emb_name, "lm_head.weight"):
            require(same(got[n], t), "%s was changed", n)
    ndt = case["m"]["dtype"]
    tol = {"float32": 2e-3, "bfloat16": 4e-2}[ndt]
    approximated = 0
    for is_head in (False, True):
        name = "lm_head.weight" if is_head else emb_name
        if is_head and M["tied"]:
            continue
        E = got[name]
        src = M["sd"][name]
        dsrc = Dn["sd"]["lm_head.weight" if is_head and not Dn["tied"] else EMB[case["d"]["arch"]]]
        require(tuple(E.shape) == (size, case["m"]["hidden"]) and E.dtype == src.dtype, "%s is %s %s, expected %d rows", name, E.dtype,
                tuple(E.shape), size)
        require(bool(torch.isfinite(E).all()), "%s is not finite", name)
        here = "lm_head" if is_head else "embed"
        new = []
        for i, mean in enumerate(Dn["means"]):
            if i >= Dn["rows"]:
                require(not bool(E[i].any()), "%s: %s has no row in the donor, but is not zero", name, Dn["toks"][i])
                ctx.label("short_donor")
                continue
            row = None
            if mean in have:
                row, how = have[mean], "shared"
            elif case["byte"] in ("yes", here) and byte_match(mean) in have:
                row, how = have[byte_match(mean)], "byte"
            elif case["prefix"] in ("yes", here):
                for p in prefixes(mean):
                    if p in have:
                        row, how = have[p], "prefix"
                        break
            if row is not None:
                require(same(E[i], src[row]), "%s: %s token %r is not row %d of the model", name, how, Dn["toks"][i], row)
                ctx.label(how)
            else:
                new.append(i)
        approximated += len(new)
        if not new:
            continue
        rows = E[new].double()
        method = case["method"]
        sc = case["scale"] or 1.0
        want = None
        if method == "zero":
            want = torch.zeros_like(rows)
        elif method == "mean":
            want = src.double().mean(dim=0).expand_as(rows)
        elif method in ("omp", "common_interpolation"):
            from mergekit.tokensurgeon import WeightingScheme, batch_omp, common_interp_approximate
            from mergekit.tokensurgeon.common_interpolation import DistanceMetric

            a, b = dsrc[[don[m] for m in shared]], src[[have[m] for m in shared]].double()
            want = []
            for i in new:
                if method == "omp":
                    idx, co = batch_omp(dsrc[i:i + 1], a, case["k"])
                else:
                    idx, co = common_interp_approximate(dsrc[i:i + 1], a, k=case["k"], weight_scheme=WeightingScheme(case["scheme"]),
                                                        metric=DistanceMetric.COSINE if case["cos"] else DistanceMetric.EUCLIDEAN)
                want.append((co[0].double().unsqueeze(1) * b[idx[0]]).sum(dim=0))
            want = torch.stack(want)
            if float(want.abs().max()) > 50:  # ill-conditioned: rounding decides
                want = None
        elif method in ("randn", "john_hewitt"):
            require(len({tuple(r.tolist()) for r in rows}) == len(new) or ndt == "bfloat16", "random rows repeat")
            require(bool(rows.any(dim=1).all()), "a random row is zero")
        if want is not None and not case["noise"]:
            want = want * sc
            lim = tol * (1 + float(want.abs().max()))
            require(close(rows, want, tol, lim), "%s: new tokens %s are off by %s", name, [Dn["toks"][i] for i in new], maxdiff(rows, want))
            ctx.label("approximation")
        elif want is not None:
            dev = rows - want * sc
            require(bool(dev.any(dim=1).all()), "no noise on some new tokens")
            require(float(dev.abs().max()) <= 0.1 * 6 * sc + tol * (1 + float(want.abs().max())), "noise of %g", float(dev.abs().max()))
            ctx.label("noise")
    m = transformers.AutoModelForCausalLM.from_pretrained(out)
    require(m.get_input_embeddings().weight.shape[0] == size and m.get_output_embeddings().weight.shape[0] == size, "loads with another size")
    ctx.label(case["method"], case["m"]["arch"], "tied" if M["tied"] else "untied")
    ctx.interesting(approximated > 0 and len(shared) > 1)


def prepare():
    import importlib

    import transformers

    import mergekit.scripts.tokensurgeon  # noqa: F401

    for x in ("AutoTokenizer", "AutoModelForCausalLM", "PreTrainedTokenizerFast", "LlamaForCausalLM", "MistralForCausalLM", "Qwen2ForCausalLM",
              "GPT2LMHeadModel", "LlamaTokenizerFast", "Qwen2TokenizerFast", "GPT2TokenizerFast"):
        getattr(transformers, x)
    importlib.import_module("transformers.models.llama.modeling_llama")


TESTS = [Test("transplant", cases, transplant, quick=560, thorough=15000, shards=7, budget=90,
              rule="some tokens are shared and some are approximated")]
assert ARCH and DTYPES and tensor_table
