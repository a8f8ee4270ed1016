"""C20: extracted adapters approximate the fine-tuned model as well as their rank allows."""
import json
import os
import re

import torch
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import DTYPES, maxdiff, same
from vp.models import read_model

PROPERTY = "C20"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: pairs of models with generated differences run through the command under generated options; the adapter is loaded and "
             "merged by the standard adapter library and every parameter compared with its best approximation of the allowed rank (64-bit singular value decomposition)")
ASSUMPTIONS = [
    "causal language models whose modules the adapter library can adapt: it refuses adapters of the output projections of Mamba, and adapters without any decomposed module",
    "the fine-tuned model has tied embeddings if and only if its base has",
]

ARCHS = ["llama", "llama", "qwen2", "qwen2", "qwen3", "gptneox", "mixtral", "lfm2"]
LEAVES = ["q_proj", "k_proj", "v_proj", "o_proj", "gate_proj", "up_proj", "down_proj", "embed_tokens", "lm_head", "norm", "dense", "conv", "experts", "bias", "w1"]
REGEX = ["q_proj", "self_attn", r"layers\.0\.", r"layers\.1\.", "mlp", "norm", "embed", "lm_head", "layernorm", r"(k|v)_proj$", "dense", "conv", "nothing"]


@st.composite
def cases(draw):
    arch = draw(st.sampled_from(ARCHS))
    tied = draw(st.booleans()) if arch in ("qwen2", "llama", "lfm2") else False
    return {"arch": arch, "tied": tied, "seed": draw(st.integers(0, 10**6)), "dims": draw(st.sampled_from([[8, 12], [8, 8], [12, 6]])),
            "deltas": {k: draw(st.sampled_from(["none", "low1", "low2", "full", "full"])) for k in draw(st.lists(st.sampled_from(LEAVES), unique=True, max_size=5))},
            "rest": draw(st.sampled_from(["none", "low1", "low2", "full", "full"])),
            "more": draw(st.sampled_from([0, 0, 0, 2])), "rank": draw(st.sampled_from([1, 2, 3, 5, 8, 100])),
            "eps": draw(st.sampled_from([None, None, 0.0, 1e-6, 0.05, 0.6])), "dist": draw(st.sampled_from([None, True, False])),
            "embed_lora": draw(st.booleans()), "skip": draw(st.booleans()),
            "save": draw(st.lists(st.sampled_from(["q_proj", "down_proj", "input_layernorm", "lm_head", "model.layers.1.self_attn.k_proj", "model.norm", "mlp"]), max_size=2)),
            "exclude": draw(st.lists(st.sampled_from(REGEX), max_size=2)), "include": draw(st.lists(st.sampled_from(REGEX), max_size=3)) if draw(st.booleans()) else [],
            "dtype": draw(st.sampled_from(["float32", "float32", "float32", "bfloat16"])), "safe": draw(st.sampled_from([True, True, False])),
            "async": draw(st.sampled_from([False, False, True])), "magnitude": draw(st.sampled_from([0.3, 0.3, 0.01]))}


def config_for(case, vocab):
    import transformers as t

    h, i = case["dims"]
    com = dict(vocab_size=vocab, hidden_size=h, intermediate_size=i, num_hidden_layers=2, num_attention_heads=2, num_key_value_heads=1,
               max_position_embeddings=64, tie_word_embeddings=case["tied"], initializer_range=0.5, bos_token_id=1, eos_token_id=2)
    a = case["arch"]
    if a == "gptneox":
        com.pop("num_key_value_heads")
        return t.GPTNeoXConfig(**com, rotary_pct=0.5)
    if a == "qwen3":
        return t.Qwen3Config(**com, head_dim=4)
    if a == "mixtral":
        return t.MixtralConfig(**com, num_local_experts=2)
    if a == "lfm2":
        return t.Lfm2Config(**com, full_attn_idxs=[1], block_auto_adjust_ff_dim=False)
    return {"llama": t.LlamaConfig, "qwen2": t.Qwen2Config}[a](**com)


def delta(p, kind, g, mag):
    if kind == "none":
        return torch.zeros(p.shape, dtype=torch.float64)
    if kind == "full" or p.dim() != 2:
        return torch.randn(p.shape, generator=g, dtype=torch.float64) * mag
    k = int(kind[-1])
    return torch.randn(p.shape[0], k, generator=g, dtype=torch.float64) @ torch.randn(k, p.shape[1], generator=g, dtype=torch.float64) * mag


def extract(case, ctx):
    import peft
    import transformers
    from torch import nn

    from mergekit.scripts.extract_lora import main

    root = ctx.tmp()
    base_dir, ft_dir, out = (os.path.join(root, x) for x in ("base", "ft", "adapter"))
    V, more, dt = 14, case["more"], DTYPES[case["dtype"]]
    torch.manual_seed(case["seed"])
    base = transformers.AutoModelForCausalLM.from_config(config_for(case, V)).to(dt)
    ft = transformers.AutoModelForCausalLM.from_config(config_for(case, V + more)).to(dt)
    g = torch.Generator().manual_seed(case["seed"] + 1)
    bp, fp = dict(base.named_parameters()), dict(ft.named_parameters())
    with torch.no_grad():
        for n, p in bp.items():
            p.copy_(torch.randn(p.shape, generator=g) * 0.4 + (1.0 if "norm" in n else 0.0))
        for n, p in fp.items():
            parts = n.split(".")
            leaf = "bias" if parts[-1] == "bias" and "bias" in case["deltas"] else next((x for x in reversed(parts[:-1]) if x in case["deltas"]), None)
            kind = case["deltas"][leaf] if leaf else case["rest"]
            b = bp[n].double()
            if p.shape != b.shape:
                b = torch.cat([b, torch.randn(p.shape[0] - b.shape[0], b.shape[1], generator=g, dtype=torch.float64)])
            p.copy_((b + delta(p, kind, g, case["magnitude"])).to(dt))
    base.save_pretrained(base_dir)
    ft.save_pretrained(ft_dir)

    args = ["--model", ft_dir, "--base-model", base_dir, "--out-path", out, "--max-rank", str(case["rank"]), "--device", "cpu"]
    if case["eps"] is not None:
        args += ["--sv-epsilon", str(case["eps"])]
    if case["dist"] is not None:
        args.append("--distribute-scale" if case["dist"] else "--no-distribute-scale")
    if case["embed_lora"]:
        args.append("--embed-lora")
    if case["skip"]:
        args.append("--skip-undecomposable")
    for x in case["save"]:
        args += ["--save-module", x]
    for x in case["exclude"]:
        args += ["-e", x]
    for x in case["include"]:
        args += ["-i", x]
    if not case["safe"]:
        args.append("--no-safe-serialization")
    if case["async"]:
        args.append("--async-write")

    # what each module should become
    lora_embed = case["embed_lora"] and not more and not case["tied"]
    ex = lambda n: any(re.search(r, n) for r in case["exclude"])  # noqa: E731
    should = lambda n: not ex(n) and (not case["include"] or any(re.search(r, n) for r in case["include"]))  # noqa: E731
    fate = {}
    for n, m in ft.named_modules():
        direct = [p for p, _ in m.named_parameters(recurse=False)]
        if not direct:
            continue
        leaf = n.split(".")[-1]
        emb = isinstance(m, nn.Embedding) or m is ft.get_output_embeddings()
        fused = "weight" not in direct
        if emb and not lora_embed and not ex(n):
            fate[n] = "save"
        elif (n in case["save"] or leaf in case["save"]) and not fused:
            fate[n] = "save"
        elif not should(n):
            fate[n] = "out"
        elif isinstance(m, (nn.Linear, nn.Embedding)):
            fate[n] = "lora"
        else:
            fate[n] = "out" if case["skip"] else "save"
    if "lora" not in fate.values():
        # an adapter without a decomposed module can not be loaded
        try:
            main.main(args, standalone_mode=False)
        except (ValueError, RuntimeError):
            raise Rejected("nothing to decompose")
        require(not os.path.exists(os.path.join(out, "adapter_config.json")), "wrote an adapter that has no decomposed module")
        return
    main.main(args, standalone_mode=False)

    with open(os.path.join(out, "adapter_config.json")) as f:
        conf = json.load(f)
    fn = os.path.join(out, "adapter_model.safetensors" if case["safe"] else "adapter_model.bin")
    require(os.path.exists(fn), "no %s", os.path.basename(fn))
    from safetensors.torch import load_file

    raw = load_file(fn) if case["safe"] else torch.load(fn, weights_only=True)
    require(conf["base_model_name_or_path"] == base_dir, "adapter_config names the base model %s", conf["base_model_name_or_path"])

    host = transformers.AutoModelForCausalLM.from_pretrained(base_dir, dtype=dt)
    if more:
        host.resize_token_embeddings(V + more, mean_resizing=False)
    before = {n: p.detach().clone() for n, p in host.named_parameters()}
    model = peft.PeftModel.from_pretrained(host, out)
    ids = torch.tensor([[1, 3, 5, 7, 4, 13]])
    model.eval()
    run = dt == torch.float32 and case["arch"] != "mixtral"  # rounding may change which experts are chosen
    if run:
        with torch.no_grad():
            live = model(input_ids=ids).logits.double()
    merged = model.merge_and_unload()
    got = dict(merged.named_parameters())
    if case["tied"]:  # saved separately, they are not shared any more
        before["lm_head.weight"] = before[next(n for n in before if n.endswith("embed_tokens.weight"))]
    require(set(got) - {"lm_head.weight"} == set(fp) - {"lm_head.weight"}, "merging the adapter changes the parameters: %s", sorted(set(got) ^ set(fp))[:4])
    exact = True
    tol_eps = 2e-6 if dt == torch.float32 else 2e-2
    for n, what in fate.items():
        m = dict(ft.named_modules())[n]
        for pn, p in m.named_parameters(recurse=False):
            full = f"{n}.{pn}"
            if full not in got:
                continue  # tied
            a = got[full].detach()
            require(a.shape == p.shape, "%s is %s after merging, expected %s", full, tuple(a.shape), tuple(p.shape))
            if what == "save":
                require(same(a, p.detach()), "%s should be saved in full, off by %s", full, maxdiff(a, p.detach()))
                continue
            if what == "out":
                require(same(a, before[full]), "%s is changed by an adapter it is left out of", full)
                if not same(before[full], p.detach()):
                    exact = False
                continue
            if pn == "bias":
                require(float((a - p).abs().max()) <= tol_eps, "%s is off by %s", full, maxdiff(a, p.detach()))
                continue
            W, F, A = (before[full].double(), p.detach().double(), a.double())
            D = F - W
            s = torch.linalg.svdvals(D)
            eps = case["eps"] or 0.0
            cap = min(case["rank"], len(s))
            lo = max(1, min(cap, int((s > eps * 1.01).sum()))) if eps else cap
            hi = max(1, min(cap, int((s > eps * 0.99 - (1e-6 if dt == torch.float32 else 0.02)).sum()))) if eps else cap
            best = float(s[lo:].pow(2).sum().sqrt())
            tol = tol_eps * (float(W.norm()) + 4 * float(D.norm()) * max(lo, 1) ** 0.5) + 1e-7
            err = float((A - F).norm())
            require(err <= best * (1 + 10 * tol_eps) + tol, "%s is off by %g, the best approximation of rank %d by %g", full, err, lo, best)
            emb = isinstance(m, nn.Embedding)
            ka, kb = (f"base_model.model.{n}.{'lora_embedding' if emb else 'lora'}_{x}{'' if emb else '.weight'}" for x in "AB")
            require(ka in raw and kb in raw, "no factors for %s", n)
            r = raw[ka].shape[0]
            require(raw[kb].shape[1] == r and r <= max(1, hi), "%s has rank %d, at most %d allowed", n, r, hi)
            x = raw[ka].double(), raw[kb].double()
            require(float(((x[1] @ x[0]) - (A - W if not emb else (A - W).T)).norm()) <= tol, "factors of %s do not give the merged weights", n)
            if dt == torch.float32:
                if case["dist"] is not False:
                    na, nb = float(x[0].norm()), float(x[1].norm())
                    require(abs(na - nb) <= 1e-3 * (na + nb) + 1e-6, "scale of %s is not distributed: %g and %g", n, na, nb)
                else:
                    require(float((x[1].T @ x[1] - torch.eye(r, dtype=torch.float64)).abs().max()) < 1e-4, "scale of %s is not left to one factor", n)
            if best > tol:
                exact = False
                ctx.label("truncated")
            elif lo < min(D.shape) and s[0] > 0.01:
                ctx.label("low_rank_exact")
    for k in raw:
        n = k.removeprefix("base_model.model.")
        for suffix in (".lora_A.weight", ".lora_B.weight", ".lora_embedding_A", ".lora_embedding_B", ".base_layer.bias", ".lora_B.bias", ".weight", ".bias"):
            if n.endswith(suffix):
                n = n.removesuffix(suffix)
                break
        else:
            n = n.rpartition(".")[0]
        require(fate.get(n, "out") != "out", "%s is in the adapter, but should be left out", k)
    if run:
        with torch.no_grad():
            after = merged(input_ids=ids).logits.double()
            require(float((live - after).abs().max()) <= 2e-3 * (1 + float(after.abs().max())),
                    "the adapter acts differently before and after merging, off by %s", maxdiff(live, after))
            if exact:
                want = ft(input_ids=ids).logits.double()
                require(float((want - after).abs().max()) <= 2e-3 * (1 + float(want.abs().max())),
                        "logits differ from the fine-tuned model's, off by %s", maxdiff(after, want))
                ctx.label("equal_logits")
    ctx.label(case["arch"], *set(fate.values()), "tied" if case["tied"] else "untied", "more" if more else "same_vocab", case["dtype"])
    if len(set(fate.values())) == 3:
        ctx.label("all_fates")
    ctx.interesting(any(float((fp[n + ".weight"].double() - before[n + ".weight"].double()).abs().max()) > 1e-3 for n, w in fate.items()
                        if w == "lora" and n + ".weight" in before and n + ".weight" in fp))


def prepare():
    import peft  # noqa: F401
    import transformers

    import mergekit.scripts.extract_lora  # noqa: F401

    for x in ("AutoModelForCausalLM", "LlamaForCausalLM", "Qwen2ForCausalLM", "Qwen3ForCausalLM", "GPTNeoXForCausalLM", "MixtralForCausalLM", "Lfm2ForCausalLM"):
        getattr(transformers, x)


TESTS = [Test("extract", cases, extract, quick=420, thorough=12000, shards=7, budget=120, rule="at least one decomposed weight differs between the models")]
assert read_model
