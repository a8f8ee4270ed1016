"""C33: code shipped with a model runs only when it is trusted, and then the model can be used."""
import json
import os

import torch
import yaml
from hypothesis import strategies as st

from vp import zygote
from vp.core import Rejected, Test, require
from vp.gen import same
from vp.models import dims, config_json, read_model, state, write_tensors
from vp.toks import write_tokenizer

PROPERTY = "C33"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: every command run, in a process of its own, on generated models that come with code for their configuration, network or tokenizer, "
             "with and without the option that trusts it; the code leaves a mark when it runs, and the outputs are compared with those for the same models without code")
ASSUMPTIONS = [
    "the code is in the model directory, where the transformers library finds it as for models of the Hub",
    "a command may refuse to use a model whose code it must not run",
]

D = {"hidden": 8, "inter": 12, "heads": 2, "kv": 1, "layers": 2}
WORDS = ["<unk>", "<s>", "</s>"] + list("abcdefgh")
EXTRA = list("xyz")

CONFIG = '''
open({flag!r}, "a").write("config\\n")
from transformers import LlamaConfig
class OwnConfig(LlamaConfig):
    model_type = {kind!r}
'''
MODEL = '''
open({flag!r}, "a").write("model\\n")
from transformers import LlamaForCausalLM, LlamaModel
from .configuration_own import OwnConfig
class OwnModel(LlamaModel):
    config_class = OwnConfig
class OwnForCausalLM(LlamaForCausalLM):
    config_class = OwnConfig
'''
TOKENIZER = '''
open({flag!r}, "a").write("tokenizer\\n")
from transformers import PreTrainedTokenizerFast
class OwnTokenizer(PreTrainedTokenizerFast):
    pass
'''

COMMANDS = ["yaml", "yaml", "yaml", "multi", "legacy", "layershuffle", "bakllama", "moe", "moe", "tokensurgeon", "tokensurgeon", "extract", "raw", "fill"]


@st.composite
def cases(draw):
    cmd = draw(st.sampled_from(COMMANDS))
    n = {"tokensurgeon": 2, "extract": 2, "fill": 2, "bakllama": 2}.get(cmd) or draw(st.integers(2, 3))
    own = [sorted(draw(st.sets(st.sampled_from(["config", "model", "tokenizer"]), max_size=3))) for _ in range(n)]
    if not any(own):
        own[draw(st.integers(0, n - 1))] = [draw(st.sampled_from(["config", "tokenizer"]))]
    trust = draw(st.booleans())
    if trust:  # a network of its own is needed to load a configuration of its own
        own = [sorted({*o, "model"}) if "config" in o else o for o in own]
    return {"cmd": cmd, "own": own, "new_type": draw(st.booleans()), "trust": trust, "seed": draw(st.integers(0, 10**6)),
            "method": draw(st.sampled_from(["linear", "slerp", "ties", "task_arithmetic", "passthrough", "slices"])),
            "tok": draw(st.sampled_from([None, "none", "union", "base", "model", "first", "padded"])), "lora": draw(st.integers(0, 3)) == 0,
            "approx": draw(st.sampled_from(["omp", "common_interpolation", "mp_rope", "mean", "zero", "subword", "stb", "randn"])),
            "gate": draw(st.sampled_from(["hidden", "cheap_embed", "random"])), "unsaid": draw(st.booleans())}


def write(case, root, with_code):
    """The models, with or without the code that comes with them."""
    flag = os.path.join(root, "ran")
    paths = []
    for i, own in enumerate(case["own"]):
        p = os.path.join(root, f"own{case['seed']}x{i}")
        os.makedirs(p)
        words = WORDS + (EXTRA[: i + 1] if case["cmd"] == "tokensurgeon" or case["cmd"] in ("yaml", "multi") and case["tok"] == "union" else [])
        d = dims({**D, "vocab": len(words)})
        own = own if with_code else []
        kind = f"own{case['seed']}" if case["new_type"] and "config" in own else "llama"
        c = config_json("llama", d, "float32", bos_token_id=1, eos_token_id=2)
        c["model_type"] = kind
        auto = {}
        if "config" in own or "model" in own:
            with open(os.path.join(p, "configuration_own.py"), "w") as f:
                f.write(CONFIG.format(flag=flag, kind=kind))
            if "config" in own:
                auto["AutoConfig"] = "configuration_own.OwnConfig"
        if "model" in own:
            with open(os.path.join(p, "modeling_own.py"), "w") as f:
                f.write(MODEL.format(flag=flag))
            auto.update(AutoModelForCausalLM="modeling_own.OwnForCausalLM", AutoModel="modeling_own.OwnModel")
        if auto:
            c["auto_map"] = auto
        with open(os.path.join(p, "config.json"), "w") as f:
            json.dump(c, f)
        sd = state("llama", d, case["seed"] + i)
        if case["cmd"] == "fill" and i:
            del sd["lm_head.weight"]
        write_tensors(p, sd, "safetensors" if case["cmd"] != "raw" or i else "bin", 1)
        kw = {}
        if "tokenizer" in own:
            with open(os.path.join(p, "tokenization_own.py"), "w") as f:
                f.write(TOKENIZER.format(flag=flag))
            kw = {"tokenizer_class": "OwnTokenizer", "auto_map": {"AutoTokenizer": [None, "tokenization_own.OwnTokenizer"]}}
        write_tokenizer(p, words, [(t, j, True) for j, t in enumerate(WORDS[:3])], bos_token="<s>", eos_token="</s>", **kw)
        paths.append(p)
    return paths, flag


def adapter(path):
    """A rank-one adapter of one projection, as the adapter library writes them."""
    import safetensors.torch

    os.makedirs(path)
    with open(os.path.join(path, "adapter_config.json"), "w") as f:
        json.dump({"peft_type": "LORA", "task_type": "CAUSAL_LM", "r": 1, "lora_alpha": 1, "target_modules": ["q_proj"], "lora_dropout": 0.0, "bias": "none",
                   "base_model_name_or_path": None}, f)
    g = torch.Generator().manual_seed(5)
    safetensors.torch.save_file({f"base_model.model.model.layers.{i}.self_attn.q_proj.lora_{x}.weight": torch.randn(s, generator=g)
                                 for i in range(D["layers"]) for x, s in (("A", (1, D["hidden"])), ("B", (D["hidden"], 1)))},
                                os.path.join(path, "adapter_model.safetensors"))


def recipe(case, paths):
    m = case["method"]
    if m in ("passthrough", "slices"):
        cfg = {"merge_method": "passthrough", "slices": [{"sources": [{"model": paths[i % len(paths)], "layer_range": [i, i + 1]}]} for i in range(2)]}
        if m == "slices":
            cfg = {"merge_method": "linear", "slices": [{"sources": [{"model": p, "layer_range": [i, i + 1], "parameters": {"weight": 1}} for p in paths]} for i in range(2)]}
    else:
        use = paths[:2] if m == "slerp" else paths
        cfg = {"merge_method": m, "models": [{"model": p, "parameters": {"weight": 0.5, "density": 0.5}} for p in use]}
        if m in ("ties", "task_arithmetic", "slerp"):
            cfg["base_model"] = paths[0]
        if m == "slerp":
            cfg["parameters"] = {"t": 0.5}
    t = case["tok"]
    if t in ("union", "base"):
        cfg["tokenizer_source"] = t
    elif t == "model":
        cfg["tokenizer"] = {"source": paths[-1].split("+")[0]}
    elif t == "first":
        cfg["tokenizer_source"] = paths[0].split("+")[0]
    elif t == "padded":
        cfg["tokenizer"] = {"source": "union", "pad_to_multiple_of": 8}
    if t == "base" and "base_model" not in cfg:
        cfg["base_model"] = paths[0]
    return cfg


def arguments(case, paths, root):
    """The command, its arguments, where its output goes, and whether it takes the option."""
    import importlib

    cmd, out = case["cmd"], os.path.join(root, "out")
    mod = {"yaml": "run_yaml", "multi": "multimerge", "extract": "extract_lora", "raw": "merge_raw_pytorch", "fill": "fill_missing_params"}.get(cmd, cmd)
    main = importlib.import_module("mergekit.scripts." + mod).main
    fn = os.path.join(root, "recipe.yml")
    opts = ["--random-seed", "1", "--lora-merge-cache", os.path.join(root, "cache")]
    can = True

    def dump(x, **kw):
        with open(fn, "w") as f:
            yaml.safe_dump_all(x, f) if isinstance(x, list) else yaml.safe_dump(x, f)

    if cmd == "yaml":
        if case["lora"]:
            adapter(os.path.join(root, "lora"))
            paths = [paths[0] + "+" + os.path.join(root, "lora")] + paths[1:]
        dump(recipe(case, paths))
        args = [fn, out] + (["--no-copy-tokenizer"] if case["tok"] == "none" else [])
    elif cmd == "multi":
        first = dict(recipe(case, paths), name="one")
        dump([first, {"merge_method": "linear", "models": [{"model": "one", "parameters": {"weight": 1.0}}, {"model": paths[0], "parameters": {"weight": 1.0}}]}])
        args = [fn, "--intermediate-dir", os.path.join(root, "between"), "--out-path", out]
    elif cmd == "legacy":
        args = [out, "--base-model", paths[0]]
        for p in paths[1:]:
            args += ["--merge", p, "--weight", "0.5", "--density", "0.5"]
    elif cmd == "layershuffle":
        args = [out]
        for p in paths:
            args += ["-m", p, "-w", "1"]
    elif cmd == "bakllama":
        dump({"layer_slices": [{"model": p, "start": i, "end": i + 1} for i, p in enumerate(paths)],
              "embedding_source": paths[0], "lm_head_source": paths[1]})
        args, opts, can = [fn, out], [], False
    elif cmd == "moe":
        dump({"base_model": paths[0], "gate_mode": case["gate"], "dtype": "float32", "architecture": "mixtral",
              "experts": [{"source_model": p, "positive_prompts": ["a" * (i + 1)]} for i, p in enumerate(paths)]})
        args = [fn, out, "--i-understand-this-is-not-useful-without-training"]
    elif cmd == "tokensurgeon":
        args = paths + [out, "-a", case["approx"], "-k", "2"]
    elif cmd == "extract":
        args = ["--model", paths[1], "--base-model", paths[0], "--out-path", out, "--max-rank", "2"]
    elif cmd == "raw":
        dump({"merge_method": "linear", "models": [{"model": os.path.join(p, "model.safetensors" if i else "pytorch_model.bin"), "parameters": {"weight": 1.0}}
                                                   for i, p in enumerate(paths)]})
        args = [fn, out]
    else:
        args, opts, can = [paths[0], paths[1], "--output_dir", out], [], False
    return main, args + opts, out, can


def run(case, root, with_code, trust):
    """In a process of its own."""
    import sys

    import transformers.dynamic_module_utils as dyn

    os.makedirs(root)
    sys.stdin = open(os.devnull)
    dyn.HF_MODULES_CACHE = os.path.join(root, "modules")
    dyn.TIME_OUT_REMOTE_CODE = 1
    paths, flag = write(case, root, with_code)
    main, args, out, can = arguments(case, paths, root)
    if can and trust:
        args = args + ["--trust-remote-code"]
    elif can and not case["unsaid"]:
        args = args + ["--no-trust-remote-code"]
    os.chdir(root)
    err = None
    try:
        main.main([str(a) for a in args], standalone_mode=False)
    except BaseException as e:  # noqa: BLE001
        err = f"{type(e).__name__}: {e}"[:1500]
        if os.environ.get("VP_TRACE"):
            import traceback

            traceback.print_exc()
    ran = sorted(set(open(flag).read().split())) if os.path.exists(flag) else []
    return {"error": err, "ran": ran, "out": out, "can": can}


def result(out):
    try:
        return read_model(out)
    except FileNotFoundError:
        import safetensors.torch

        fn = os.path.join(out, "adapter_model.safetensors")
        return safetensors.torch.load_file(fn) if os.path.exists(fn) else None


def trusted(case, ctx):
    root = ctx.tmp()
    zygote.start()
    what = ", ".join(f"model {i}: {'+'.join(o) or 'none'}" for i, o in enumerate(case["own"]))
    got = zygote.call(run, case, os.path.join(root, "a"), True, case["trust"])
    require(got[0] == "ok", "harness: %s", got[1:])
    got = got[1]
    trust = case["trust"] and got["can"]
    ctx.label(case["cmd"], "trusted" if trust else "untrusted", "ok" if got["error"] is None else "refused")
    if not trust:
        ctx.interesting()
        require(not got["ran"], "mergekit %s ran the code that came with a model (its %s), which was not trusted (%s)", case["cmd"], " and ".join(got["ran"]), what)
    ref = zygote.call(run, case, os.path.join(root, "b"), False, False)
    require(ref[0] == "ok", "harness: %s", ref[1:])
    ref = ref[1]
    if ref["error"] is not None:
        ctx.label("not possible without code either")
        if got["error"] is None:
            require(False, "mergekit %s works on models with code, but fails without: %s", case["cmd"], ref["error"])
        return
    new = case["new_type"] and any("config" in o for o in case["own"])
    if trust and not (case["cmd"] == "moe" and new):  # experts have to be of a known type
        ctx.interesting()
        require(got["error"] is None, "mergekit %s with --trust-remote-code fails on models that come with code (%s): %s", case["cmd"], what, got["error"])
    if trust and got["error"] is None:  # a tokenizer that is not to be run may be replaced, with a warning
        a, b = result(got["out"]), result(ref["out"])
        require(a is not None and b is not None and set(a) == set(b) and all(same(a[k], b[k]) for k in a),
                "mergekit %s writes other tensors for models that come with code (%s)", case["cmd"], what)


def prepare():
    import mergekit.scripts.bakllama  # noqa: F401
    import mergekit.scripts.extract_lora  # noqa: F401
    import mergekit.scripts.fill_missing_params  # noqa: F401
    import mergekit.scripts.layershuffle  # noqa: F401
    import mergekit.scripts.legacy  # noqa: F401
    import mergekit.scripts.merge_raw_pytorch  # noqa: F401
    import mergekit.scripts.moe  # noqa: F401
    import mergekit.scripts.multimerge  # noqa: F401
    import mergekit.scripts.run_yaml  # noqa: F401
    import mergekit.scripts.tokensurgeon  # noqa: F401
    import peft  # noqa: F401
    import transformers.models.llama.modeling_llama  # noqa: F401


TESTS = [
    Test("trusted", cases, trusted, quick=240, thorough=5000, shards=8, budget=120,
         rule="commands run on models with code of their own; non-trivial = the code is not trusted, or is and the command is possible without it"),
]
