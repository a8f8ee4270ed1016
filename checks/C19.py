"""C19: mixture-of-experts models take each part from the right source."""
import json
import math
import os

import torch
import yaml
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import DTYPES, close, maxdiff, same
from vp.models import read_config, read_model, seed_for, split_table, write_tensors
from vp.gen import make
from vp.toks import read_vocab, write_tokenizer

PROPERTY = "C19"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated expert lists, gate modes, prompts, noise, scales and dtypes for all four output architectures run "
             "through the command; tensors compared with their sources, routers with reference formulas and with the base model's own hidden states, "
             "loaded models with the dense model they were made of")
ASSUMPTIONS = [
    "hidden-state routers are compared within bfloat16 rounding, prompt by prompt without padding",
    "random routers are checked for shape, range and distinct rows",
    "models written for architectures the installed model library lacks (DeepSeek) are compared tensor by tensor only",
]

CLS = {"llama": "LlamaForCausalLM", "mistral": "MistralForCausalLM", "qwen2": "Qwen2ForCausalLM", "qwen3": "Qwen3ForCausalLM"}
WORDS = list("abcdefgh")
VOCAB = ["<unk>", "<s>", "</s>"] + WORDS
H, I, LAYERS = 8, 12, 2


def table(arch, head_dim, tied):
    pre, fmt, layer, post = split_table("qwen2" if arch == "qwen2" else "llama", {"hidden": H, "inter": I, "heads": 2, "kv": 1})
    nh, kv = 2 * head_dim, head_dim
    shape = {"self_attn.q_proj.weight": (nh, H), "self_attn.k_proj.weight": (kv, H), "self_attn.v_proj.weight": (kv, H),
             "self_attn.o_proj.weight": (H, nh), "self_attn.q_proj.bias": (nh,), "self_attn.k_proj.bias": (kv,), "self_attn.v_proj.bias": (kv,),
             "mlp.gate_proj.weight": (I, H), "mlp.up_proj.weight": (I, H), "mlp.down_proj.weight": (H, I), "input_layernorm.weight": (H,),
             "post_attention_layernorm.weight": (H,)}
    out = {"model.embed_tokens.weight": (len(VOCAB), H)}
    for n in range(LAYERS):
        for k in layer:
            out[fmt.format(n) + k] = shape[k]
        if arch == "qwen3":
            out[fmt.format(n) + "self_attn.q_norm.weight"] = (head_dim,)
            out[fmt.format(n) + "self_attn.k_norm.weight"] = (head_dim,)
    out["model.norm.weight"] = (H,)
    if not tied:
        out["lm_head.weight"] = (len(VOCAB), H)
    return out


@st.composite
def prompts(draw, lo=1):
    return ["".join(draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=4)))
            for _ in range(draw(st.integers(lo, 3)))]


@st.composite
def experts(draw, n_models, need_prompts):
    e = {"model": draw(st.integers(0, n_models - 1))}
    if need_prompts or draw(st.booleans()):
        e["pos"] = draw(prompts())
        if draw(st.integers(0, 2)) == 0:
            e["neg"] = draw(prompts())
    e["noise"] = draw(st.sampled_from([None, None, None, 0.0, 0.05]))
    e["scale"] = draw(st.sampled_from([None, None, 1.0, 0.5, 0.0, 2.0]))
    return e


@st.composite
def cases(draw):
    arch = draw(st.sampled_from(["llama", "mistral", "qwen2", "qwen3"]))
    n = draw(st.integers(1, 4))
    mode = draw(st.sampled_from(["hidden", "hidden", "cheap_embed", "cheap_embed", "random", "uniform_random", "hidden_avg", "hidden_last"]))
    need = mode not in ("random", "uniform_random")
    ex = [draw(experts(n, need)) for _ in range(draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4])))]
    shared = []
    if arch == "qwen2" or (arch != "qwen3" and draw(st.booleans())):
        s = draw(experts(n, False))
        s["model"] = draw(st.integers(0, n))  # possibly a model used for nothing else
        shared = [s]
        if arch == "qwen2" and need and "pos" not in s:
            s["pos"] = draw(prompts())
    return {"arch": arch, "n": n, "seed": draw(st.integers(0, 10**6)), "mode": mode, "experts": ex, "shared": shared,
            "dtype": draw(st.sampled_from([None, None, "float32", "float16", "bfloat16"])),
            "in_dtype": draw(st.sampled_from(["float32", "float32", "bfloat16"])), "k": draw(st.integers(1, len(ex))) if draw(st.integers(0, 7)) else draw(st.integers(1, 4)),
            "arch_field": draw(st.sampled_from([None] * 6 + (["mixtral", "deepseek", "deepseek", "qwen"] if arch in ("llama", "mistral") else ["qwen", "Qwen3"]))),
            "tied": draw(st.booleans()) and arch in ("qwen3", "llama"), "head_dim": draw(st.sampled_from([4, 4, 6])),
            "clone": draw(st.booleans()), "fmt": draw(st.sampled_from(["safetensors", "bin"])), "shards": draw(st.sampled_from([1, 3])),
            "same_flag": draw(st.sampled_from([True] * 5 + [False])), "all_same": draw(st.sampled_from([False, False, False, True])),
            "bos": draw(st.sampled_from([True, True, False])), "pad": draw(st.booleans()), "copy": draw(st.booleans()),
            "out_shard": draw(st.booleans()), "faint": draw(st.integers(0, 2)) == 0,
            "theta": draw(st.sampled_from([10000.0, 10000.0, 100.0])), "eps": draw(st.sampled_from([1e-6, 1e-6, 0.1]))}


def build_model(case, i, path):
    t = table(case["arch"], case["head_dim"], case["tied"])
    sd = {n: make(s, seed_for(case["seed"] + 17 * i, n), "normal", DTYPES[case["in_dtype"]], 0.4) for n, s in t.items()}
    for n in sd:
        if "norm" in n:
            sd[n] = sd[n] + 1
        if "embed" in n and case["faint"] and case["mode"] == "cheap_embed":
            sd[n] = sd[n] / 256
    os.makedirs(path)
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump({"architectures": [CLS[case["arch"]]], "model_type": case["arch"], "hidden_size": H, "intermediate_size": I,
                   "num_hidden_layers": LAYERS, "num_attention_heads": 2, "num_key_value_heads": 1, "head_dim": case["head_dim"],
                   "vocab_size": len(VOCAB), "max_position_embeddings": 64, "tie_word_embeddings": case["tied"], "dtype": case["in_dtype"],
                   "rms_norm_eps": case["eps"], "rope_theta": case["theta"], "bos_token_id": 1, "eos_token_id": 2}, f)
    write_tensors(path, sd, case["fmt"], case["shards"])
    kw = {"eos_token": "</s>"}
    if case["bos"]:
        kw["bos_token"] = "<s>"
    if case["pad"]:
        kw["pad_token"] = "<unk>"
    write_tokenizer(path, VOCAB, [("<unk>", 0, True), ("<s>", 1, True), ("</s>", 2, True)], **kw)
    return sd


def chosen(case):
    """The output architecture the documentation implies, or None."""
    a, shared, mode = case["arch"], case["shared"], case["mode"]
    ok = []
    if a in ("llama", "mistral") and not shared:
        ok.append("Mixtral")
    if a in ("llama", "mistral") and not (shared and (shared[0].get("pos") or shared[0].get("neg"))):
        ok.append("DeepSeek MoE")
    if a != "qwen3" and shared and (mode in ("random", "uniform_random") or shared[0].get("pos")):
        ok.append("Qwen MoE")
    if a == "qwen3" and not shared:
        ok.append("Qwen3 MoE")
    f = case["arch_field"]
    if f:
        ok = [x for x in ok if x.lower().startswith(f.lower())]
    return ok[0] if ok else None


def rejected(case):
    ex = case["experts"]
    if len(ex) < case["k"]:
        return "fewer experts than are used per token"
    if case["mode"] in ("random", "uniform_random"):
        return None
    tup = [(e["pos"], e.get("neg") or []) for e in ex]
    if all(t == tup[0] for t in tup):
        return "identical prompts"
    if not case["same_flag"] and all(e["model"] == ex[0]["model"] for e in ex):
        return "identical experts"
    return None


def ids_of(prompt, bos):
    return ([1] if bos else []) + [VOCAB.index(w) for w in prompt]


def cheap(sd, case, ps):
    e = sd["model.embed_tokens.weight"].double()
    v = sum(e[i] for p in ps for i in ids_of(p, case["bos"]))
    return (v / v.norm().clamp_min(1e-8)).expand(LAYERS, -1)


def hidden(model, case, ps):
    """(layers, hidden): mean over prompts of the input of each layer at the last token, or averaged over the tokens."""
    tot = 0
    for p in ps:
        with torch.no_grad():
            out = model(input_ids=torch.tensor([ids_of(p, case["bos"])]), output_hidden_states=True)
        h = torch.stack(out.hidden_states[:-1])[:, 0].double()  # layers, tokens, hidden
        tot = tot + (h.mean(dim=1) if case["mode"] == "hidden_avg" else h[:, -1])
    return tot / len(ps)


def moe(case, ctx):
    import transformers

    from mergekit.scripts.moe import main

    root = ctx.tmp()
    paths = [os.path.join(root, f"m{i}") for i in range(case["n"] + 1)]
    ex, shared = case["experts"], case["shared"]
    if case["all_same"]:
        for e in ex + shared:
            e["model"] = 0
            e["noise"] = e["scale"] = None
        for e in shared:
            e["scale"] = 0.0  # contributes nothing
    states = [build_model(case, i, p) for i, p in enumerate(paths)]

    def spec(e):
        d = {"source_model": paths[e["model"]]}
        for k, v in (("pos", "positive_prompts"), ("neg", "negative_prompts"), ("noise", "noise_scale"), ("scale", "residual_scale")):
            if e.get(k) is not None:
                d[v] = e[k]
        return d

    cfg = {"base_model": paths[0], "gate_mode": case["mode"], "experts": [spec(e) for e in ex], "experts_per_token": case["k"]}
    if shared:
        cfg["shared_experts"] = [spec(e) for e in shared]
    if case["dtype"]:
        cfg["dtype"] = case["dtype"]
    if case["arch_field"]:
        cfg["architecture"] = case["arch_field"]
    fn = os.path.join(root, "cfg.yml")
    with open(fn, "w") as f:
        yaml.safe_dump(cfg, f)
    out = os.path.join(root, "out")
    args = [fn, out, "--random-seed", str(case["seed"]), "--device", "cpu", "--copy-tokenizer" if case["copy"] else "--no-copy-tokenizer"]
    if case["same_flag"]:
        args.append("--i-understand-this-is-not-useful-without-training")
    if case["clone"]:
        args.append("--clone-tensors")
    if case["out_shard"]:
        args += ["--out-shard-size", "2000"]
    why = rejected(case)
    arch = chosen(case)
    if why or arch is None:
        code = None
        try:
            main.main(args, standalone_mode=False)
        except SystemExit as e:
            code = e.code
        require(code, "accepted in spite of %s", why or "no fitting architecture")
        require(not os.path.exists(os.path.join(out, "config.json")), "a rejected configuration wrote a model")
        ctx.label("rejected")
        return
    main.main(args, standalone_mode=False)
    got = read_model(out)
    c = read_config(out)
    dt_name = case["dtype"] or case["in_dtype"]
    dt = DTYPES[dt_name]
    E = len(ex)
    inf = c.get("model_type")
    require(inf == {"Mixtral": "mixtral", "DeepSeek MoE": "deepseek", "Qwen MoE": "qwen2_moe", "Qwen3 MoE": "qwen3_moe"}[arch],
            "wrote a %s model, expected %s", inf, arch)
    key = {"Mixtral": "num_local_experts", "DeepSeek MoE": "n_routed_experts"}.get(arch, "num_experts")
    n_exp = c.get(key, c.get("num_local_experts"))
    require(n_exp == E, "config says %s experts, there are %d", n_exp, E)
    require(c["num_experts_per_tok"] == case["k"], "config says %s experts per token, asked for %d", c["num_experts_per_tok"], case["k"])
    if arch == "DeepSeek MoE":
        require((c["n_shared_experts"] or 0) == len(shared), "config says %s shared experts", c["n_shared_experts"])
    for k2 in ("dtype", "torch_dtype"):
        if c.get(k2) is not None:
            require(c[k2] == dt_name, "config %s is %s, tensors are %s", k2, c[k2], dt_name)
    for k2 in ("hidden_size", "num_hidden_layers", "vocab_size", "num_attention_heads"):
        require(c[k2] == {"hidden_size": H, "num_hidden_layers": LAYERS, "vocab_size": len(VOCAB), "num_attention_heads": 2}[k2], "config %s: %s", k2, c[k2])
    for k2 in ("moe_intermediate_size", "shared_expert_intermediate_size", "intermediate_size"):
        require(c.get(k2, I) == I, "config %s: %s, feed-forward size is %d", k2, c.get(k2), I)

    expected = {}
    for n, t in states[0].items():
        if ".mlp." not in n:
            expected[n] = t.to(dt)
    noisy = {}

    def part(name, e, src, tensor):
        """The tensor an expert contributes, or None if noise was added."""
        t = states[e["model"]][src]
        sc = e["scale"] if (src.endswith("down_proj.weight") and e["scale"] is not None) else None
        r = t * sc if sc is not None else t
        if e["noise"]:
            dev = (tensor.double() - r.double())
            lim = 7 * e["noise"] * abs(sc if sc is not None else 1) + 2e-2 * float(r.abs().max()) + 1e-6
            require(float(dev.abs().max()) <= lim, "%s is off by %g, its noise is %g", name, float(dev.abs().max()), e["noise"])
            require(sc == 0 or bool(dev.any()), "%s has no noise", name)
            ctx.label("noise")
        else:
            require(same(tensor, r.to(dt)), "%s is not that of its source, off by %s", name, maxdiff(tensor, r.to(dt)))

    seen = set(expected)
    for n, t in expected.items():
        require(n in got, "%s of the base model is missing", n)
        require(same(got[n], t), "%s is not the base model's", n)
    biases = {n for n in got if n.endswith("_proj.bias") and "self_attn" in n} - set(expected)
    for n in biases:
        require(arch == "Qwen MoE", "unexpected %s", n)
        sz = case["head_dim"] * (2 if "q_proj" in n else 1)
        require(tuple(got[n].shape) == (sz,) and not bool(got[n].any()), "%s should be %d zeros, is %s", n, sz, tuple(got[n].shape))
    seen |= biases
    for lay in range(LAYERS):
        p = f"model.layers.{lay}.mlp."
        for i, e in enumerate(ex):
            for q in ("gate_proj", "up_proj", "down_proj"):
                sep = f"{p}experts.{i}.{q}.weight"
                if sep in got:
                    t = got[sep]
                    seen.add(sep)
                else:
                    fused = p + ("experts.down_proj" if q == "down_proj" else "experts.gate_up_proj")
                    require(fused in got, "no tensor for expert %d, %s of layer %d", i, q, lay)
                    seen.add(fused)
                    f = got[fused]
                    require(f.shape[0] == E, "%s holds %d experts", fused, f.shape[0])
                    t = f[i] if q == "down_proj" else f[i, :I] if q == "gate_proj" else f[i, I:]
                require(t.dtype == dt, "%s of expert %d is %s", q, i, t.dtype)
                part(f"{q} of expert {i}, layer {lay}", e, f"{p}{q}.weight", t)
        for e in shared:
            for q in ("gate_proj", "up_proj", "down_proj"):
                n = f"{p}{'shared_expert' if arch == 'Qwen MoE' else 'shared_experts'}.{q}.weight"
                require(n in got, "%s is missing", n)
                seen.add(n)
                part(n, e, f"{p}{q}.weight", got[n])
        for n, cnt in [(p + "gate.weight", E)] + ([(p + "shared_expert_gate.weight", 1)] if arch == "Qwen MoE" else []):
            require(n in got, "%s is missing", n)
            seen.add(n)
            g = got[n]
            require(tuple(g.shape) == (cnt, H) and g.dtype == dt, "%s is %s %s, expected %d rows", n, g.dtype, tuple(g.shape), cnt)
            require(bool(torch.isfinite(g).all()), "%s is not finite", n)
            if case["mode"] in ("random", "uniform_random"):
                require(bool(g.any(dim=1).all()) and len({tuple(r.tolist()) for r in g}) == cnt, "random rows repeat in %s", n)
                if case["mode"] == "uniform_random":
                    require(float(g.abs().max()) <= math.sqrt(1 / H) * 1.01, "%s exceeds the initialization range", n)
    require(set(got) == seen, "unexpected tensors %s", sorted(set(got) - seen)[:5])

    # routers from prompts
    if case["mode"] not in ("random", "uniform_random"):
        model = None
        if case["mode"] != "cheap_embed":
            model = transformers.AutoModelForCausalLM.from_pretrained(paths[0], dtype=torch.bfloat16)
        todo = [("gate.weight", i, e) for i, e in enumerate(ex)]
        if arch == "Qwen MoE":
            todo.append(("shared_expert_gate.weight", 0, shared[0]))
        for suffix, i, e in todo:
            f = (lambda ps: cheap(states[0], case, ps)) if model is None else (lambda ps: hidden(model, case, ps))
            pos = f(e["pos"])
            want = pos - f(e["neg"]) if e.get("neg") else pos
            for lay in range(LAYERS):
                nrm = float(want[lay].norm())
                if nrm < 0.3 * float(pos[lay].norm()):
                    continue  # what is left of a difference is rounding
                w = want[lay] / nrm
                g = got[f"model.layers.{lay}.mlp.{suffix}"][i].double()
                tol = 2e-2 if model is None and dt_name == "bfloat16" else 3e-3 if model is None else 6e-2
                require(close(g, w, 0, tol), "router row %d of layer %d (%s) is off by %s", i, lay, case["mode"], maxdiff(g, w))
                ctx.label("router")
    # the result loads, and copies of one model route to the same answer
    if arch != "DeepSeek MoE":
        m, info = transformers.AutoModelForCausalLM.from_pretrained(out, output_loading_info=True, dtype=torch.float32)
        for k2 in ("missing_keys", "unexpected_keys", "mismatched_keys", "error_msgs"):
            bad = list(info.get(k2) or [])
            if k2 == "missing_keys" and case["tied"]:
                bad = [x for x in bad if x != "lm_head.weight"]
            require(not bad, "%s on loading: %s", k2, bad[:4])
        if case["all_same"] and case["in_dtype"] == dt_name:
            base = transformers.AutoModelForCausalLM.from_pretrained(paths[0], dtype=torch.float32)
            x = torch.tensor([[1, 4, 5, 3]])
            with torch.no_grad():
                a, b = m(x).logits, base(x).logits
            require(close(a, b, 1e-3, 1e-3 * (1e-2 + float(b.abs().max()))), "a mixture of copies differs from the model by %s", maxdiff(a, b))
            ctx.label("equivalent")
    if case["copy"]:
        va, vb = read_vocab(out), read_vocab(paths[0])
        require(all(va.get(k2) == vb[k2] for k2 in vb), "tokenizer is not the base model's")
        a, b = (transformers.AutoTokenizer.from_pretrained(p) for p in (out, paths[0]))
        require(a.get_vocab() == b.get_vocab(), "tokenizer is not the base model's")
        require(a.special_tokens_map == b.special_tokens_map and a.padding_side == b.padding_side,
                "tokenizer settings differ from the base model's: %s %s", a.special_tokens_map, a.padding_side)
    ctx.label(arch, case["mode"], dt_name, "shared" if shared else "no_shared")
    ctx.interesting(E > 1)


def prepare():
    import transformers

    import mergekit.scripts.moe  # noqa: F401

    for x in ("AutoTokenizer", "AutoModelForCausalLM", "LlamaForCausalLM", "MistralForCausalLM", "Qwen2ForCausalLM", "Qwen3ForCausalLM",
              "MixtralForCausalLM", "Qwen2MoeForCausalLM", "Qwen3MoeForCausalLM", "PreTrainedTokenizerFast"):
        getattr(transformers, x)


TESTS = [Test("moe", cases, moe, quick=420, thorough=12000, shards=7, budget=100, rule="a model with more than one expert was written")]
assert Rejected
