"""C32: recipes and inputs that mean nothing are refused, and nothing passes for their result."""
import copy
import json
import os

import torch
import yaml
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.models import config_json, dims, read_model, state, write_tensors
from vp.recipes import RANDOM, config, recipes, write_inputs

PROPERTY = "C32"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing, negative: generated recipes that merge, each then broken in one generated place in a way that leaves it without "
             "a meaning, must be refused; the intact recipe must go through")
ASSUMPTIONS = [
    "which changes leave a recipe without a meaning is a list of kinds in this check; settings a method does not know are ignored by design and not generated",
    "a two-model method given one model returns it, and methods on deltas keep the base's tensor (with a warning) where a model's has another shape: both by design",
]

NEEDS_BASE = {"task_arithmetic", "ties", "dare_ties", "dare_linear", "della", "della_linear", "breadcrumbs", "slerp", "sce", "arcee_fusion", "nearswap", "model_stock"}
PAIRS = {"slerp", "nuslerp", "arcee_fusion", "nearswap"}
DELTAS = {"task_arithmetic", "ties", "dare_ties", "dare_linear", "della", "della_linear", "breadcrumbs", "sce"}
REQUIRED = {"linear": "weight", "task_arithmetic": "weight", "ties": "weight", "dare_ties": "weight", "dare_linear": "weight", "della": "weight", "della_linear": "weight",
            "breadcrumbs": "weight", "multislerp": "weight", "nuslerp": "weight", "slerp": "t", "nearswap": "t"}

CONFIG = ["method", "none", "empty", "both", "dtype", "out_dtype", "param", "filtered", "value", "base", "many", "beyond", "reversed", "negative", "lengths",
          "nowhere", "nowhere-base", "tok-both", "tok-source", "tok-model", "template", "module", "sources", "gradient", "number"]
TOKENS = ["tok-absent", "tok-id", "tok-kind"]
INPUT = ["arch", "shape", "tensor", "config", "config-gone", "weights-gone", "layers", "hidden"]


@st.composite
def cases(draw):
    return {"recipe": draw(recipes()), "kind": draw(st.sampled_from(CONFIG + TOKENS + INPUT)), "pick": draw(st.integers(0, 10**6)), "via": draw(st.sampled_from(["cli", "lib"])),
            "earlier": draw(st.booleans()), "rseed": draw(st.integers(0, 2**31)), "crimes": draw(st.booleans())}


def sliced(cfg, layers):
    """The same merge written with slices."""
    if "slices" in cfg:
        return cfg
    c = copy.deepcopy(cfg)
    c["slices"] = [{"sources": [dict(m, layer_range=[0, layers]) for m in c.pop("models")]}]
    return c


def inputs_of(cfg):
    return cfg["models"] if "models" in cfg else [s for x in cfg["slices"] for s in x["sources"]]


def break_config(case, cfg, paths, root):
    """The recipe without a meaning, or Rejected where this kind does not apply; the intact form it is to be compared with."""
    r, kind, k = case["recipe"], case["kind"], case["pick"]
    name, ok = cfg["merge_method"], cfg
    needs_layers = kind in ("beyond", "reversed", "negative", "lengths", "sources")
    if needs_layers:
        if r["arch"] == "unknown":
            raise Rejected("no layers known")
        ok = sliced(cfg, r["layers"])
    c = copy.deepcopy(ok)
    src = inputs_of(c)
    one = src[k % len(src)]
    if kind == "method":
        c["merge_method"] = [name + "x", "", "merge", name[:-1], "average"][k % 5]
    elif kind == "none":
        c.pop("models", None), c.pop("slices", None)
    elif kind == "empty":
        c["models" if "models" in c else "slices"] = []
    elif kind == "both":
        full = sliced(cfg, r["layers"])
        c = dict(full, models=[{"model": p} for p in paths])
    elif kind in ("dtype", "out_dtype"):
        c[kind] = ["float31", "fp", "double precision", "int", "Tensor", "nn"][k % 6]
    elif kind in ("param", "filtered"):
        p = REQUIRED.get(name)
        if p is None:
            raise Rejected("nothing is required")
        if p in c.get("parameters", {}):
            holder = c
        else:
            own = [s for s in src if p in s.get("parameters", {}) and s["model"] != c.get("base_model")]
            if not own:
                raise Rejected("only the base has it")
            holder = own[k % len(own)]
        if kind == "param":
            del holder["parameters"][p]
        else:
            holder["parameters"][p] = [{"filter": "no_such_part", "value": 0.5}]
    elif kind == "value":
        p = REQUIRED.get(name)
        if p is None:
            raise Rejected("nothing is required")
        v = ["heavy", {"a": 1}, ["x", "y"], [{"value": "heavy"}], [{"filter": "mlp", "value": [1, "z"]}, {"value": 1}]][k % 5]
        hit = False
        for h in [c, *src]:
            if p in h.get("parameters", {}) and h.get("model", 0) != c.get("base_model", 1):
                h["parameters"][p] = v
                hit = True
        if not hit:
            raise Rejected("only the base has it")
    elif kind in ("gradient", "number"):
        p = REQUIRED.get(name)
        own = [h for h in [c, *src] if p and p in h.get("parameters", {}) and h.get("model", 0) != c.get("base_model", 1)]
        if not own:
            raise Rejected("nothing is required")
        own[k % len(own)]["parameters"][p] = [] if kind == "gradient" else None
    elif kind == "base":
        if name not in NEEDS_BASE:
            raise Rejected("needs no base")
        del c["base_model"]
    elif kind == "many":
        if name in PAIRS:
            # a third model
            extra = os.path.join(root, "third")
            write_third(case, extra)
            src_list = c["models"]
            src_list.append(copy.deepcopy(src_list[0]))
            src_list[-1]["model"] = extra
        elif name == "passthrough" and "slices" in c:
            s = c["slices"][k % len(c["slices"])]["sources"]
            s.append(dict(s[0], model=[p for p in paths if p != s[0]["model"]][0]))
        else:
            raise Rejected("takes any number")
    elif kind == "beyond":
        hi = r["layers"] + 1 + k % 3
        if name != "passthrough":
            for s in src:
                s["layer_range"] = [s["layer_range"][0], hi]
        else:
            one["layer_range"] = [one["layer_range"][0], hi]
    elif kind == "reversed":
        for s in src if name != "passthrough" else [one]:
            s["layer_range"] = [r["layers"], r["layers"] - 1]
    elif kind == "negative":
        for s in src if name != "passthrough" else [one]:
            s["layer_range"] = [-1, r["layers"] - 1] if k % 2 else [-r["layers"], r["layers"]]
    elif kind == "lengths":
        if name == "passthrough" or len(src) < 2 or r["layers"] < 2:
            raise Rejected("one source")
        one["layer_range"] = [k % 2, r["layers"] - 1 + k % 2]
    elif kind == "sources":
        c["slices"][k % len(c["slices"])]["sources"] = []
    elif kind == "nowhere":
        one["model"] = os.path.join(root, "no", "such", "model")
    elif kind == "nowhere-base":
        if "base_model" not in c:
            raise Rejected("no base")
        c["base_model"] = os.path.join(root, "no", "such", "model")
    elif kind == "tok-both":
        c["tokenizer"] = {"source": "union"}
        c["tokenizer_source"] = "union"
    elif kind == "tok-source":
        c.pop("tokenizer", None)
        c["tokenizer_source" if k % 2 else "tokenizer"] = os.path.join(root, "nope") if k % 2 else {"source": os.path.join(root, "nope")}
    elif kind == "tok-model":
        # an embedding from a model that is not there
        if not r.get("tok"):
            raise Rejected("no tokenizer")
        c["tokenizer"]["tokens"] = {"t0": {"source": os.path.join(root, "nope")}}
    elif kind == "template":
        if not r.get("templates"):
            raise Rejected("no tokenizer")
        c["chat_template"] = ["chatmll", "none", "llama", "x"][k % 4]
    elif kind == "module":
        body = {x: c.pop(x) for x in ("models", "slices") if x in c}
        c["modules"] = {"no_such_module": body}
    elif kind in TOKENS:
        if not r.get("tok"):
            raise Rejected("no tokenizer")
        v = {"tok-absent": {"kind": "model_token", "model": paths[k % len(paths)], "token": "absent word"},
             "tok-id": {"kind": "model_token", "model": paths[k % len(paths)], "token_id": 5000},
             "tok-kind": {"kind": "average", "model": paths[0]}}[kind]
        c["tokenizer"]["tokens"] = {"t0": {"source": v}}
    else:
        raise AssertionError(kind)
    return ok, c


def write_third(case, path):
    r = case["recipe"]
    sub = dict(r, seed=r["seed"] + 77)
    from vp.recipes import write_input

    os.makedirs(path)
    p = write_input(sub, path, 0)
    for fn in os.listdir(p):
        os.rename(os.path.join(p, fn), os.path.join(path, fn))


def used_inputs(cfg, paths):
    used = {s["model"] for s in inputs_of(cfg)} | ({cfg["base_model"]} if "base_model" in cfg else set())
    return [p for p in paths if p in used]


def break_input(case, cfg, paths):
    r, kind, k = case["recipe"], case["kind"], case["pick"]
    used = used_inputs(cfg, paths)
    p = used[k % len(used)]
    cj = os.path.join(p, "config.json")
    if kind == "arch":
        if len(used) < 2 or r["arch"] == "unknown":
            raise Rejected("one input")
        other = "gpt2" if r["arch"] == "llama" else "llama"
        for fn in os.listdir(p):
            if "tokenizer" not in fn and not fn.endswith(".jinja"):
                os.remove(os.path.join(p, fn))
        d = dims({"layers": r["layers"], "vocab": 7})
        with open(cj, "w") as f:
            json.dump(config_json(other, d, r["dtype"]), f)
        write_tensors(p, state(other, d, 5, "normal", r["dtype"]))
        return
    with open(cj) as f:
        conf = json.load(f)
    if kind == "config":
        with open(cj, "w") as f:
            f.write(json.dumps(conf)[: k % 40 + 1])
    elif kind == "config-gone":
        os.remove(cj)
    elif kind == "weights-gone":
        for fn in os.listdir(p):
            if fn.endswith((".safetensors", ".bin", ".index.json")):
                os.remove(os.path.join(p, fn))
    elif kind == "layers":
        # the configuration promises more layers than there are
        if r["arch"] == "unknown" or cfg["merge_method"] == "passthrough":
            raise Rejected("layers are not taken from the configuration")
        conf["n_layer" if r["arch"] == "gpt2" else "num_hidden_layers"] = r["layers"] + 1
        for q in used:
            with open(os.path.join(q, "config.json"), "w") as f:
                json.dump(conf, f)
    else:
        sd = read_model(p)
        names = sorted(n for n in sd if not any(x in n for x in ("embed", "wte", "lm_head")))
        if "slices" in cfg:
            mine = [s["layer_range"][0] for x in cfg["slices"] for s in x["sources"] if s["model"] == p]
            names = [n for n in names if any(f".{lo}." in n or n.startswith(f"h.{lo}.") for lo in mine)]
        if not names:
            raise Rejected("no such tensor")
        n = names[k % len(names)]
        if kind == "tensor":
            if r["arch"] == "unknown":
                raise Rejected("what is missing is not known")
            del sd[n]
        elif len(used) < 2 or "slices" in cfg:
            raise Rejected("one input")
        elif cfg["merge_method"] in DELTAS:
            raise Rejected("leaves such tensors as they are in the base, with a warning")
        elif kind == "shape":
            # another length along its last dimension
            t = sd[n]
            sd[n] = torch.cat([t, t[..., :1]], dim=-1)
        elif kind == "hidden":
            sd[n] = sd[n].unsqueeze(0).repeat(*([2] + [1] * sd[n].ndim))
        for fn in os.listdir(p):
            if fn.endswith((".safetensors", ".bin", ".index.json")):
                os.remove(os.path.join(p, fn))
        write_tensors(p, sd, r["fmt"], r["shards"])


def contents(out):
    res = {}
    for b, _, fs in os.walk(out):
        for fn in fs:
            with open(os.path.join(b, fn), "rb") as f:
                res[os.path.relpath(os.path.join(b, fn), out)] = f.read()
    return res


def go(cfg, out, case, opts):
    from mergekit.config import MergeConfiguration
    from mergekit.io.tasks import LoaderCache
    from mergekit.merge import run_merge
    from mergekit.options import MergeOptions

    LoaderCache().loaders.clear()
    if case["via"] == "lib":
        run_merge(MergeConfiguration.model_validate(copy.deepcopy(cfg)), out, options=MergeOptions(quiet=True, write_model_card=False, **opts))
        return
    from click.testing import CliRunner

    from mergekit.scripts.run_yaml import main

    recipe = out.rstrip("/") + ".yml"
    with open(recipe, "w") as f:
        yaml.safe_dump(cfg, f)
    args = [recipe, out, "--quiet", "--no-write-model-card"]
    if opts["random_seed"] is not None:
        args += ["--random-seed", str(opts["random_seed"])]
    res = CliRunner().invoke(main, args, catch_exceptions=True)
    if res.exit_code != 0 or res.exception is not None:
        raise res.exception or RuntimeError(res.output[-300:])


def refused(case, ctx):
    r, kind = case["recipe"], case["kind"]
    root = ctx.tmp()
    paths = write_inputs(r, root)
    cfg = config(r, paths)
    opts = {"random_seed": case["rseed"] if r["method"]["name"] in RANDOM else None}
    on_input = kind in INPUT
    ok, bad = (cfg, cfg) if on_input else break_config(case, cfg, paths, root)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        try:
            go(ok, os.path.join(root, "ok"), dict(case, via="lib"), opts)
        except Exception as e:  # noqa: BLE001
            raise Rejected(f"the intact recipe does not merge either: {e}")
        if on_input:
            break_input(case, cfg, paths)
        out = os.path.join(root, "out")
        if case["earlier"]:
            os.makedirs(out)
            for fn in ("config.json", "model.safetensors", "tokenizer.json"):
                with open(os.path.join(out, fn), "w") as f:
                    f.write("earlier " + fn)
        before = contents(out)
        try:
            go(bad, out, case, opts)
        except SystemExit as e:
            require(e.code not in (0, None), "the command succeeded")
        except Exception as e:  # noqa: BLE001
            ctx.label("error " + type(e).__name__)
        else:
            shown = "an input was broken" if on_input else f"recipe {bad}"
            require(False, "%s (%s) was merged instead of being refused", shown, kind)
        after = contents(out)
        if case["earlier"]:
            # whoever merged there before keeps that, or can tell that it is gone
            if not on_input and kind not in TOKENS:
                require(after == before, "a recipe refused from the start (%s) changed an earlier output: %s", kind,
                        sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)))
        else:
            complete = "config.json" in after and any(k in after for k in ("model.safetensors", "pytorch_model.bin", "model.safetensors.index.json", "pytorch_model.bin.index.json"))
            require(not complete, "after a refused merge (%s) a complete-looking model is in the output: %s", kind, sorted(after))
    finally:
        os.chdir(cwd)
    ctx.label(kind, r["method"]["name"], r["arch"], case["via"])
    ctx.interesting(True)


def prepare():
    import mergekit.scripts.run_yaml  # noqa: F401

    from vp.e2e import warm

    warm()


TESTS = [
    Test("refused", cases, refused, quick=900, thorough=20000, shards=8, budget=80, rule="one thing of the recipe or of its inputs is broken; the intact recipe merges; all count"),
]
