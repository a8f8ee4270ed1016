"""C22: merging raw checkpoints applies the method tensor by tensor."""
import hashlib
import json
import os

import torch
import yaml
from hypothesis import strategies as st

from vp import refs
from vp.core import Rejected, Test, require
from vp.gen import DTYPES, describe, make, maxdiff, same, seeds
from vp.methods import run_method
from vp.models import read_model, seed_for

PROPERTY = "C22"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated sets of raw checkpoints and configurations through the command line tool, "
             "compared bit for bit with the method applied to the tensors of each name with independently resolved parameters, "
             "and with float64 formulas for linear and slerp")
ASSUMPTIONS = [
    "tensors of one name have one shape in all checkpoints and are floating point",
    "randomized pruning methods are run at density 1, where they are deterministic",
    "a tensor the method cannot be applied to (say, a union tensor the base model lacks under a task-vector method) is refused",
]

POOL = ["a.weight", "a.bias", "b.weight", "b.norm", "layers.0.w", "layers.1.w", "layers.10.w", "weight", "x/y z", "ünï"]
PIECES = ["weight", "layers", "layers.1", "a.", "b", "norm", "*", "nothing", ".w", "ü"]
SHAPES = [[4], [3, 5], [2, 2, 3], [1], [], [6, 2], [8, 1]]
FILES = ["m{}.safetensors", "m{}.bin", "m{}.pt", "dir{}/model.safetensors", "dir{}/weights.pth", "m{}+x@y.safetensors", "M {}.SafeTensors"]

weight = st.sampled_from([0, 0.0, 0.25, 0.5, 1, 1.0, 2.0, -0.5, 3])
pos = st.sampled_from([0.25, 0.5, 1, 2.0])
frac = st.sampled_from([0.25, 0.5, 0.75, 1.0, 1])
flag = st.booleans()
zero_one = st.sampled_from([0, 0.0, 0.25, 0.5, 1.0, 1])
# method: (per-model parameters, global parameters, needs a base model, number of models)
METHODS = {
    "linear": ({"weight": (weight, True)}, {"normalize": (flag, False)}, None, None),
    "task_arithmetic": ({"weight": (weight, True)}, {"normalize": (flag, False), "lambda": (weight, False)}, True, None),
    "ties": ({"weight": (weight, True), "density": (frac, False)}, {"normalize": (flag, False), "int8_mask": (flag, False), "lambda": (weight, False)}, True, None),
    "breadcrumbs": ({"weight": (weight, True), "density": (frac, False), "gamma": (zero_one, False)}, {"lambda": (weight, False)}, True, None),
    "dare_linear": ({"weight": (weight, True)}, {"rescale": (flag, False)}, True, None),
    "slerp": ({}, {"t": (zero_one, True)}, True, 2),
    "nuslerp": ({"weight": (pos, True)}, {"nuslerp_row_wise": (flag, False), "nuslerp_flatten": (flag, False)}, None, 2),
    "multislerp": ({"weight": (pos, True)}, {"normalize_weights": (flag, False)}, None, None),
    "karcher": ({}, {"max_iter": (st.sampled_from([1, 10]), False)}, None, None),
    "passthrough": ({"scale": (weight, False)}, {}, False, 1),
    "model_stock": ({}, {"filter_wise": (flag, False)}, True, None),
    "sce": ({}, {"select_topk": (frac, False)}, True, None),
    "nearswap": ({}, {"t": (pos, True)}, True, 2),
    "arcee_fusion": ({}, {}, True, 2),
}


@st.composite
def setting(draw, value):
    form = draw(st.sampled_from(["scalar", "scalar", "filters", "filters", "gradient"]))
    if form == "scalar":
        return draw(value)
    if form == "gradient":
        g = draw(st.lists(value, min_size=1, max_size=3))
        return g
    conds = [{"filter": draw(st.sampled_from(PIECES)), "value": draw(value)} for _ in range(draw(st.integers(1, 2)))]
    if draw(st.integers(0, 3)):
        conds.append({"value": draw(value)})
    return conds


def resolve(name, settings):
    """First setting of the list that gives the tensor a value."""
    for s in settings:
        if s is None:
            continue
        if isinstance(s, list):
            if isinstance(s[0], dict):
                hit = [c["value"] for c in s if c.get("filter") in (None, "*") or c["filter"] in name]
                if hit:
                    return hit[0]
                continue
            return s[0]  # a gradient has no layers to run along here
        return s
    return None


@st.composite
def cases(draw):
    method = draw(st.sampled_from(["linear", "linear", "task_arithmetic", "ties", "slerp"] + sorted(METHODS)))
    tp, gp, needs, count = METHODS[method]
    n = count or draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=6, unique=True))
    case = {"method": method, "seed": draw(seeds), "names": names, "shapes": [draw(st.sampled_from(SHAPES)) for _ in names],
            "models": [], "params": {}, "base": None, "dtype": draw(st.sampled_from([None, None, "float32", "float16", "bfloat16"])),
            "unlisted": False, "mode": draw(st.sampled_from(["plain", "intersection", "union"])), "lazy": draw(flag), "pickle": draw(flag), "shard": draw(st.sampled_from([None, "64", "1"])),
            "clone": draw(flag), "async": draw(flag), "gpu": False, "rewrite": draw(st.integers(0, 4)) == 0}
    complete = case["mode"] == "plain" and draw(st.integers(0, 9))
    for i in range(n):
        have = [True] * len(names) if complete else [draw(st.integers(0, 3)) > 0 for _ in names]
        params = {}
        for p, (v, req) in tp.items():
            if draw(st.integers(0, 3)):
                params[p] = draw(setting(v))
        case["models"].append({"file": draw(st.sampled_from(FILES)), "have": have, "dtype": draw(st.sampled_from(["float32", "float32", "float16", "bfloat16"])),
                               "wrap": draw(flag), "params": params if params or draw(flag) else None})
    if draw(flag):
        d = draw(st.sampled_from(["float32", "float16"]))
        for m in case["models"]:
            m["dtype"] = d
    for p, (v, req) in list(gp.items()) + list(tp.items()):
        if p in tp and draw(st.integers(0, 3)) > 2:
            continue
        if (req and draw(st.integers(0, 9))) or draw(flag):
            case["params"][p] = draw(setting(v))
    if needs or (needs is None and draw(st.integers(0, 2)) == 0):
        if method != "nuslerp" and (count == 2 or draw(flag)):
            case["base"] = draw(st.integers(0, n - 1))
        else:
            case["base"], case["unlisted"] = n, True
            case["models"].append({"file": draw(st.sampled_from(FILES)), "dtype": case["models"][0]["dtype"], "wrap": False, "params": None,
                                   "have": [True] * len(names) if complete else [draw(st.integers(0, 3)) > 0 for _ in names]})
    return case


def write(path, tensors, wrap):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if path.lower().endswith(".safetensors"):
        import safetensors.torch

        safetensors.torch.save_file(tensors, path)
    else:
        torch.save({"state_dict": tensors, "epoch": 3} if wrap else tensors, path)


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def content(case, i, salt=0):
    m = case["models"][i]
    return {n: make(s, seed_for(case["seed"] + 31 * i + salt, n), "normal", DTYPES[m["dtype"]])
            for n, s, h in zip(case["names"], case["shapes"], m["have"]) if h}


def expected(case, states):
    """({name: tensor} or None if refused, applied methods)"""
    models, base = case["models"], case["base"]
    tp, gp, _n, _c = METHODS[case["method"]]
    listed = range(len(models) - case["unlisted"])
    out, mixed = {}, False
    for n in sorted(set().union(*states)):
        have = [n in s for s in states]
        if not all(have):
            if case["mode"] == "intersection":
                continue
            if case["mode"] == "plain":
                return None, mixed
        g = {}
        for p, (_v, req) in gp.items():
            v = resolve(n, [case["params"].get(p)])
            if v is None and req:
                return None, mixed
            if v is not None:
                g[p] = v
        per = []
        for i in range(len(models)):
            mine = {}
            for p, (_v, req) in tp.items():
                own = (models[i]["params"] or {}).get(p) if i in listed else None
                v = resolve(n, [own, case["params"].get(p)])
                if v is None and req and i != base:
                    return None, mixed
                if v is not None:
                    mine[p] = v
            per.append(mine)
        if len({json.dumps(x, sort_keys=True) for x in per}) > 1:
            mixed = True
        ts = [s.get(n) for s in states]
        if case["dtype"]:
            ts = [t if t is None else t.to(DTYPES[case["dtype"]]) for t in ts]
        try:
            r = run_method(case["method"], [t if t is None else t.clone() for t in ts], base, g, per, name=n)
        except Exception:  # noqa: BLE001 - the method refuses these tensors
            return None, mixed
        if r is None:
            return None, mixed
        present = [(t, p) for t, p in zip(ts, per) if t is not None]
        if case["method"] == "linear" and len({t.dtype for t, _ in present}) == 1 and all(p.get("weight") is not None for _, p in present):
            formula_linear(n, r, present, g)
        out[n] = r.to(DTYPES[case["dtype"]]) if case["dtype"] else r
    return out, mixed


def formula_linear(n, r, present, g):
    ws = [float(p["weight"]) for _t, p in present]
    norm = g.get("normalize", True)
    if norm and abs(sum(ws)) < 0.05 * sum(map(abs, ws)) + 1e-6:
        return
    ref, mag = refs.linear([t.double() for t, _ in present], ws, norm)
    tol = 32 * refs.EPS[present[0][0].dtype] * (mag + ref.abs()) + 1e-6
    require(bool(((r.double() - ref).abs() <= tol).all()), "%s: %s is not the weighted average %s", n, describe(r), describe(ref))


def flat(case, ctx):
    from click.testing import CliRunner

    from mergekit.scripts.merge_raw_pytorch import main

    root = ctx.tmp()
    n = len(case["models"])
    unlisted = case["unlisted"]
    if not any(any(m["have"]) for m in case["models"]):
        raise Rejected()
    paths = [os.path.join(root, f"{i}", m["file"].format(i)) for i, m in enumerate(case["models"])]
    cfg = {"merge_method": case["method"], "models": []}
    for i, m in enumerate(case["models"]):
        if i == n - 1 and unlisted:
            continue
        e = {"model": paths[i]}
        if m["params"] is not None:
            e["parameters"] = m["params"]
        cfg["models"].append(e)
    if not cfg["models"]:
        raise Rejected()
    if case["base"] is not None:
        cfg["base_model"] = paths[case["base"]]
    if case["params"]:
        cfg["parameters"] = case["params"]
    if case["dtype"]:
        cfg["dtype"] = case["dtype"]
    recipe = os.path.join(root, "c.yml")
    with open(recipe, "w") as f:
        yaml.safe_dump(cfg, f, allow_unicode=True)
    opts = {"plain": [], "intersection": ["--tensor-intersection"], "union": ["-u"]}[case["mode"]]
    for k, o in (("lazy", "--lazy-unpickle"), ("clone", "--clone-tensors"), ("async", "--async-write")):
        if case[k]:
            opts.append(o)
    if case["pickle"]:
        opts.append("--no-safe-serialization")
    if case["shard"]:
        opts += ["--out-shard-size", case["shard"]]
    for rnd in range(2 if case["rewrite"] else 1):
        states = [content(case, i, rnd * (i == 0)) for i in range(n)]
        for p, s, m in zip(paths, states, case["models"]):
            write(p, s, m["wrap"])
        want, mixed = expected(case, states)
        out = os.path.join(root, f"out{rnd}")
        before = [digest(p) for p in paths]
        res = CliRunner().invoke(main, [recipe, out, "--quiet"] + opts, catch_exceptions=True)
        require([digest(p) for p in paths] == before, "input checkpoints were modified")
        if want is None:
            ctx.label("refused")
            require(res.exception is not None and res.exit_code != 0, "merge should have been refused, but went through")
            return
        if not want:
            ctx.label("nothing")
            return
        if res.exception is not None and not (isinstance(res.exception, SystemExit) and res.exit_code == 0):
            require(False, "merge failed: %s: %s", type(res.exception).__name__, str(res.exception)[:300] + (res.output or "")[-300:])
        got = read_model(out)
        require(set(got) == set(want), "output has the wrong tensors: %s", sorted(set(got) ^ set(want))[:5])
        for k in want:
            require(same(got[k], want[k]), "%s is %s, expected %s (off by %s)", k, describe(got[k]), describe(want[k]), maxdiff(got[k], want[k]))
        names = set().union(*states)
        ctx.label(case["method"], case["mode"], *(["partial"] if any(set(s) != names for s in states) else []), *(["mixed"] if mixed else []),
                  *(["base unlisted"] if unlisted else []), *(["again"] if rnd else []))
    ctx.interesting(n > 1 and len(want) > 1)


def prepare():
    import mergekit.scripts.merge_raw_pytorch  # noqa: F401


TESTS = [Test("flat", cases, flat, quick=2100, thorough=20000, shards=7, rule="several checkpoints, and more than one tensor in the output")]
