"""C15: merged vocabularies keep every token with the right embedding."""
import json
import os

import torch
from hypothesis import strategies as st

from vp.core import Test, require
from vp.gen import rng
from vp.models import config_json, dims, merge, read_config, read_model, state, write_tensors
from vp.toks import read_vocab, write_tokenizer

PROPERTY = "C15"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated vocabularies, unused tokens, padding, sources and per-token overrides; whole merges compared "
             "row by row with a reference that works on token strings")
ASSUMPTIONS = [
    "token ids of each input tokenizer are contiguous and no special role is given to a token without an embedding",
    "tokenizers are fast BPE tokenizers",
    "padding rows are averages of the rows of tokens, as the code intends (compared where all models are merged)",
]

POOL = [f"t{i}" for i in range(7)] + ["\n", "  ", " t1", "T1", "é"]  # also whitespace, and words that differ in little
EXTRA = ["<|a|>", "<|b|>", " c", "<|new|>"]
WEIGHTS = [1.0, 64.0, 4096.0]


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3]))
    models = []
    for _ in range(n):
        plain = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=7, unique=True))
        added = draw(st.lists(st.sampled_from(EXTRA[:3] + POOL[:4]), min_size=0, max_size=3, unique=True))
        added = [a for a in added if a not in plain]
        ntok = 1 + len(plain) + len(added)
        models.append({"plain": plain, "added": added, "special": draw(st.booleans()),
                       # rows of the embedding: fewer than tokens (unused ones), equal, or padded
                       "rows": max(2, ntok + draw(st.sampled_from([0, 0, 0, -1, -2, 1, 5]))),
                       "tied": draw(st.sampled_from([False, False, True])),
                       "has_tok": draw(st.sampled_from([True] * 7 + [False]))})
    form = draw(st.sampled_from(["models", "models", "models", "passthrough", "modules"])) if n > 1 else "models"
    base = draw(st.sampled_from([None] + list(range(n))))
    case = {"models": models, "seed": draw(st.integers(0, 10**6)), "form": form, "base": base,
            "base_listed": draw(st.booleans()), "order": draw(st.permutations(list(range(n)))),
            "source": draw(st.sampled_from(["union", "union", "base", "model"])), "source_model": draw(st.integers(0, n - 1)),
            "legacy": draw(st.booleans()), "pad": draw(st.sampled_from([None, None, 1, 4, 16])),
            "method": draw(st.sampled_from(["linear", "linear", "task_arithmetic"]))}
    first = case["base"] if base is not None else case["order"][0]
    models[first]["has_tok"] = models[case["source_model"]]["has_tok"] = True
    toks = {}
    if not case["legacy"]:
        for t in draw(st.lists(st.sampled_from(EXTRA + POOL), max_size=3, unique=True)):
            kind = draw(st.sampled_from(["model", "token", "id", "zero", "none", "absent"]))
            e = {"kind": kind, "model": draw(st.integers(0, n - 1)), "force": draw(st.booleans()), "pick": draw(st.integers(0, 50))}
            toks[t] = e
    else:
        case["pad"] = None
    case["tokens"] = toks
    return case


def vocabs(case):
    """Per model {token: id}: all tokens of the tokenizer, and those that have an embedding."""
    full, usable = [], []
    for m in case["models"]:
        v = {t: i for i, t in enumerate(["<unk>"] + m["plain"] + m["added"])}
        full.append(v)
        usable.append({t: i for t, i in v.items() if i < m["rows"]})
    return full, usable


def build(case, root):
    paths, states = [], []
    for i, m in enumerate(case["models"]):
        d = dims({"layers": 1, "vocab": m["rows"]})
        sd = state("llama", d, case["seed"] + i, "ints")
        g = rng(case["seed"] * 7 + i)
        for k in ("model.embed_tokens.weight", "lm_head.weight"):
            # multiples of 6, so that averages of two or three are whole; distinct within a model
            sd[k] = torch.randint(-5, 6, (m["rows"], d["hidden"]), generator=g).float() * 6
        if m["tied"]:
            del sd["lm_head.weight"]
        p = os.path.join(root, f"m{i}")
        os.makedirs(p)
        with open(os.path.join(p, "config.json"), "w") as f:
            json.dump(config_json("llama", d, "float32", tie=m["tied"]), f)
        write_tensors(p, sd)
        if m["has_tok"]:
            v0 = 1 + len(m["plain"])
            write_tokenizer(p, ["<unk>"] + m["plain"], [(t, v0 + j, m["special"]) for j, t in enumerate(m["added"])])
        if m["tied"]:
            sd["lm_head.weight"] = sd["model.embed_tokens.weight"]
        paths.append(p)
        states.append(sd)
    return paths, states


def configure(case, paths, full, usable):
    n = len(paths)
    cfg = {"merge_method": case["method"], "dtype": "float32"}
    base = case["base"]
    listed = list(case["order"])
    if case["form"] != "models":
        cfg["merge_method"] = "passthrough"
        src = [[{"model": paths[i], "layer_range": [0, 1]}] for i in listed if i != base or case["base_listed"] or n == 1] or \
            [[{"model": paths[listed[0]], "layer_range": [0, 1]}]]
        sl = [{"sources": s} for s in src]
        if case["form"] == "modules":
            cfg["modules"] = {"default": {"slices": sl}}
        else:
            cfg["slices"] = sl
        embed_in = paths.index(src[0][0]["model"])
        embed_out = paths.index(src[-1][0]["model"])
        ref = [base] if base is not None else []
        ref += [paths.index(s[0]["model"]) for s in src]
    else:
        if case["method"] == "task_arithmetic" and base is None:
            cfg["merge_method"] = "linear"
        ls = [i for i in listed if i != base or case["base_listed"] or n == 1]
        cfg["models"] = [{"model": paths[i], "parameters": {"weight": WEIGHTS[i]}} for i in ls]
        if base is not None and base not in ls and cfg["merge_method"] == "linear":
            cfg["models"].append({"model": paths[base], "parameters": {"weight": WEIGHTS[base]}})
            ls = ls + [base]
        cfg["parameters"] = {"normalize": False}
        embed_in = embed_out = None
        ref = ([base] if base is not None else []) + ls
    ref = list(dict.fromkeys(ref))
    if base is not None:
        cfg["base_model"] = paths[base]
    first = ref[0]
    source = case["source"]
    src_val = paths[case["source_model"]] if source == "model" else source
    toks, over = {}, {}
    for t, e in case["tokens"].items():
        m = e["model"] if e["model"] in ref else ref[0]
        entry = {"force": e["force"]}
        vm = usable[m] if m != first and case["models"][m]["has_tok"] else usable[m]
        kind = e["kind"]
        if not case["models"][m]["has_tok"]:
            kind = "zero" if kind in ("model", "token") else kind
        if kind == "model":
            if t in vm:
                entry["source"] = paths[m]
                over[t] = ("row", m, vm[t])
        elif kind == "token":
            names = sorted(vm)
            nm = names[e["pick"] % len(names)]
            entry["source"] = {"kind": "model_token", "model": paths[m], "token": nm}
            over[t] = ("row", m, vm[nm])
        elif kind == "id":
            k = e["pick"] % case["models"][m]["rows"]
            entry["source"] = {"kind": "model_token", "model": paths[m], "token_id": k}
            over[t] = ("row", m, k)
        elif kind == "zero":
            entry["source"] = {"kind": "zero"}
            over[t] = ("zero",)
        elif kind == "none":
            entry["source"] = None
        toks[t] = entry
    if case["legacy"]:
        cfg["tokenizer_source"] = src_val
    else:
        cfg["tokenizer"] = {"source": src_val}
        if toks:
            cfg["tokenizer"]["tokens"] = toks
        if case["pad"]:
            cfg["tokenizer"]["pad_to_multiple_of"] = case["pad"]
    return cfg, ref, first, over, embed_in, embed_out


def merged(case, ctx):
    root = ctx.tmp()
    full, usable = vocabs(case)
    paths, states = build(case, root)
    cfg, ref, first, over, e_in, e_out = configure(case, paths, full, usable)
    # a model whose tokenizer can not be loaded counts as having the base's
    has = {}
    for i in ref:
        v = usable[i] if case["models"][i]["has_tok"] else usable[first]
        has[i] = {t: k for t, k in v.items() if k < case["models"][i]["rows"]}

    # expected vocabulary, as a set of strings, and ids that are fixed
    if case["source"] == "base":
        want, fixed = set(usable[first]), usable[first]
    elif case["source"] == "model":
        want, fixed = set(full[case["source_model"]]), full[case["source_model"]]
    else:
        want, fixed = set(usable[first]), usable[first]
        for i in ref:
            if case["models"][i]["has_tok"]:
                want |= set(usable[i])
    want = want | set(case["tokens"])

    out = os.path.join(root, "out")
    merge(cfg, out)
    v = read_vocab(out)
    require(set(v) == want, "output vocabulary lacks %s and has extra %s", sorted(want - set(v)), sorted(set(v) - want))
    require(sorted(v.values()) == list(range(len(v))), "token ids are not one each: %s", v)
    for t, k in fixed.items():
        require(v[t] == k, "token %s of the %s tokenizer has id %d, was %d", t, case["source"], v[t], k)
    rows = len(v)
    if case["pad"] and rows % case["pad"]:
        rows += case["pad"] - rows % case["pad"]
    require(read_config(out)["vocab_size"] == rows, "configuration says %s words, expected %d", read_config(out)["vocab_size"], rows)
    got = read_model(out)

    base = case["base"]
    kinds = set()

    def row(i, tok, name, as_own=True):
        """The reference row of model i for an output token."""
        emb = {j: states[j][name].double() for j in ref}
        force = case["tokens"].get(tok, {}).get("force", False)
        if tok in has[i] and not force:
            kinds.add("own")
            return emb[i][has[i][tok]]
        if tok in over:
            kinds.add("override" + ("_forced" if force else ""))
            o = over[tok]
            return emb[o[1]][o[2]] if o[0] == "row" else torch.zeros(4, dtype=torch.float64)
        owners = [j for j in ref if tok in has[j]]
        if len(owners) == 0:
            kinds.add("nobody")
            return torch.zeros(4, dtype=torch.float64)
        if len(owners) == 1:
            kinds.add("only_owner")
            return emb[owners[0]][has[owners[0]][tok]]
        if base is not None and tok in has[base]:
            kinds.add("base")
            return emb[base][has[base][tok]]
        kinds.add("average")
        return sum(emb[j][has[j][tok]] for j in owners) / len(owners)

    for name, who in (("model.embed_tokens.weight", e_in), ("lm_head.weight", e_out)):
        if name not in got:
            # nothing to merge: every input is tied
            srcs = ref if who is None else [who]
            require(all(case["models"][i]["tied"] for i in srcs), "%s is missing", name)
            continue
        g = got[name].double()
        require(tuple(g.shape) == (rows, 4), "%s has shape %s, expected %d rows", name, tuple(g.shape), rows)
        require(bool(torch.isfinite(g).all()), "%s is not finite", name)
        if rows > len(v) and who is None:  # of every model, so of their combination
            avg = g[: len(v)].mean(0)
            require(bool(((g[len(v):] - avg).abs() <= 1e-2 + 1e-5 * float(g.abs().max())).all()), "%s: padding rows are %s, the average of the others is %s",
                    name, g[len(v)].tolist(), avg.tolist())
        for t, k in v.items():
            if who is not None:
                exp = row(who, t, name)
            elif cfg["merge_method"] == "linear":
                exp = sum(WEIGHTS[i] * row(i, t, name) for i in dict.fromkeys(paths.index(m["model"]) for m in cfg["models"]))
            else:
                b = row(base, t, name)
                exp = b + sum(WEIGHTS[i] * (row(i, t, name) - b) for i in (paths.index(m["model"]) for m in cfg["models"]) if i != base)
            require(bool(((g[k] - exp).abs() <= 1e-2 + 1e-6 * exp.abs()).all()), "%s: token %s (id %d) is %s, expected %s", name, t, k,
                    g[k].tolist(), exp.tolist())
    # everything else is merged as without a tokenizer
    for k in got:
        if k in ("model.embed_tokens.weight", "lm_head.weight"):
            continue
        require(k in states[0] or case["form"] != "models", "unexpected tensor %s", k)
    ctx.label(case["source"], case["form"], "base" if base is not None else "no_base", *kinds)
    ctx.interesting(len(kinds) >= 2)


TESTS = [Test("merged", cases, merged, quick=900, thorough=24000, shards=6, budget=90,
              rule="rows of at least two different origins (own, base, only owner, average, override, nobody)")]


def prepare():
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="vp-warm-")
    try:
        write_tokenizer(d, ["<unk>", "a"])
        import transformers

        transformers.AutoTokenizer.from_pretrained(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
