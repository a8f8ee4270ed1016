"""C26: merge methods defined by decorating a function."""
import itertools
import os

import torch
from hypothesis import strategies as st

from vp.core import Test, require
from vp.e2e import D, inputs
from vp.gen import describe, same
from vp.models import merge, read_model

PROPERTY = "C26"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated function signatures are registered, driven through whole merges, and the arguments they "
             "record compared with the configuration")
ASSUMPTIONS = ["parameter precedence between configuration levels is C06's subject: here values are given per model, globally or not at all"]
_n = itertools.count()

SPECIAL = ["output_weight", "base_model"]
SC = {"float": st.sampled_from([0.25, 1.5, -2.0, 0.0]), "int": st.sampled_from([0, 3, -7]), "bool": st.booleans()}


@st.composite
def programs(draw):
    names = draw(st.permutations(["alpha", "beta", "gamma", "delta_", "k", "scale"]))
    params = []
    for i in range(draw(st.integers(0, 4))):
        ty = draw(st.sampled_from(["float", "int", "bool", "List[float]", "List[int]", "List[float]"]))
        inner = ty[5:-1] if ty.startswith("List") else ty
        dflt = draw(st.one_of(st.none(), SC[inner]))
        params.append({"name": names[i], "type": ty, "default": dflt})
    n = draw(st.integers(1, 4))
    base = draw(st.sampled_from(["none", "none", "required", "optional"]))
    bm = draw(st.sampled_from(["absent", "listed", "unlisted"])) if base != "required" else draw(st.sampled_from(["listed", "unlisted"]))
    vals = {}
    for p in params:
        inner = p["type"][5:-1] if p["type"].startswith("List") else p["type"]
        if p["type"].startswith("List"):
            given = []
            glob = draw(st.one_of(st.none(), SC[inner]))
            for _ in range(n):
                v = draw(SC[inner])
                if (glob is not None or p["default"] is not None) and draw(st.booleans()):
                    v = None
                given.append(v)
            vals[p["name"]] = {"global": glob, "models": given}
        else:
            v = draw(SC[inner])
            vals[p["name"]] = {"global": None if p["default"] is not None and draw(st.booleans()) else v}
    return {"params": params, "special": sorted(draw(st.sets(st.sampled_from(SPECIAL)))), "base": base, "bm": bm, "n": n, "vals": vals,
            "base_at": draw(st.integers(0, n - 1)), "order": draw(st.permutations(list(range(n)))), "seed": draw(st.integers(0, 10**6)),
            "kwonly": draw(st.booleans()), "tensors_first": draw(st.booleans())}


def source(case, fname):
    args = []
    if case["base"] == "required":
        args.append(("base_tensor: torch.Tensor", False))
    elif case["base"] == "optional":
        args.append(("base_tensor: Optional[torch.Tensor]" + (" = None" if case["kwonly"] else ""), case["kwonly"]))
    for p in case["params"]:
        d = p["default"] is not None
        args.append((f"{p['name']}: {p['type']}" + (f" = {p['default']!r}" if d else ""), d))
    for s in case["special"]:
        args.append((f"{s}: " + ("WeightInfo" if s == "output_weight" else "Optional[ModelReference]"), False))
    args.insert(0, ("tensors: List[torch.Tensor]", False))
    if case["kwonly"]:
        sig = "*, " + ", ".join(a for a, _ in args)
    else:
        sig = ", ".join(a for a, d in args if not d)
        rest = ", ".join(a for a, d in args if d)
        sig = ", ".join(x for x in (sig, rest) if x)
    return f"def {fname}({sig}) -> torch.Tensor:\n    return _record(dict(locals()))\n"


def called(case, ctx):
    from typing import List, Optional

    from mergekit.architecture import WeightInfo
    from mergekit.common import ModelReference
    from mergekit.merge_methods.easy_define import merge_method

    root = ctx.tmp()
    calls = []

    def record(kw):
        # detach from the engine's own storage, then answer with a recognizable tensor
        calls.append({k: ([t.clone() for t in v] if k == "tensors" else (v.clone() if isinstance(v, torch.Tensor) else v)) for k, v in kw.items()})
        like = kw["tensors"][0] if kw["tensors"] else kw["base_tensor"]
        return torch.full_like(like, float(len(calls)))

    name = f"vp_custom_{next(_n)}"
    ns = {"torch": torch, "List": List, "Optional": Optional, "WeightInfo": WeightInfo, "ModelReference": ModelReference, "_record": record}
    src = source(case, name)
    exec(compile(src, f"<{name}>", "exec"), ns)  # noqa: S102
    merge_method(name=name)(ns[name])

    n = case["n"]
    paths, sds = inputs(root, n, case["seed"])
    order = case["order"]
    base = None if case["bm"] == "absent" else case["base_at"]
    models = []
    for i in order:
        if case["bm"] == "unlisted" and i == base:
            continue
        m = {"model": paths[i]}
        pr = {p["name"]: case["vals"][p["name"]]["models"][i] for p in case["params"]
              if p["type"].startswith("List") and case["vals"][p["name"]]["models"][i] is not None}
        if pr:
            m["parameters"] = pr
        models.append(m)
    if not models:
        from vp.core import Rejected
        raise Rejected()
    cfg = {"merge_method": name, "models": models, "dtype": "float32"}
    g = {p["name"]: case["vals"][p["name"]]["global"] for p in case["params"] if case["vals"][p["name"]]["global"] is not None}
    if g:
        cfg["parameters"] = g
    if base is not None:
        cfg["base_model"] = paths[base]
    out = os.path.join(root, "out")
    merge(cfg, out)
    got = read_model(out)

    require(set(got) == set(sds[0]), "output tensors %s", sorted(set(got) ^ set(sds[0])))
    require(len(calls) == len(got), "the method ran %d times for %d output tensors", len(calls), len(got))
    # expected order
    seq = [i for i in order if i != base]
    if base is not None and case["base"] == "none":
        seq.insert(0, base)
    seen = set()
    for w in sorted(got):
        t = got[w]
        require(t.numel() and bool((t == t.reshape(-1)[0]).all()), "tensor %s is not what the method returned: %s", w, describe(t))
        idx = int(t.reshape(-1)[0]) - 1
        require(0 <= idx < len(calls) and idx not in seen, "tensor %s carries the value of call %d", w, idx)
        seen.add(idx)
        kw = calls[idx]
        want_t = [sds[i][w] for i in seq]
        require(len(kw["tensors"]) == len(want_t), "%s: %d tensors passed, expected those of models %s", w, len(kw["tensors"]), seq)
        for j, (a, b) in enumerate(zip(kw["tensors"], want_t)):
            require(same(a, b), "%s: tensors[%d] is not model %d's (listed %s, base %s): got %s expected %s", w, j, seq[j], order, base,
                    describe(a), describe(b))
        if case["base"] != "none":
            bt = kw["base_tensor"]
            if base is None:
                require(bt is None, "%s: base_tensor passed without a base model", w)
            else:
                require(same(bt, sds[base][w]), "%s: base_tensor is not the base model's tensor", w)
        for p in case["params"]:
            v = case["vals"][p["name"]]
            if p["type"].startswith("List"):
                exp = []
                for i in seq:
                    mv = v["models"][i] if not (case["bm"] == "unlisted" and i == base) else None
                    if mv is None:
                        mv = v["global"] if v["global"] is not None else p["default"]
                    exp.append(mv)
            else:
                exp = v["global"] if v["global"] is not None else p["default"]
            require(kw[p["name"]] == exp and type(kw[p["name"]]) is type(exp), "%s: argument %s is %r, expected %r (models in order %s)", w, p["name"], kw[p["name"]], exp, seq)
        if "output_weight" in case["special"]:
            require(kw["output_weight"].name == w, "output_weight says %r for tensor %s", kw["output_weight"].name, w)
            require(bool(kw["output_weight"].is_embed) == (w in ("model.embed_tokens.weight", "lm_head.weight")), "output_weight.is_embed wrong for %s", w)
        if "base_model" in case["special"]:
            bmv = kw["base_model"]
            require((bmv is None) == (base is None) and (base is None or bmv == ModelReference.model_validate(paths[base])), "base_model argument is %r", bmv)
    ctx.label(f"n={n}", case["base"], case["bm"], f"params={len(case['params'])}")
    ctx.interesting(len(seq) >= 2 and bool(case["params"]))


# ---------------------------------------------------------------- declarations that must be refused
BAD = [
    "def f(xs: List[torch.Tensor]) -> torch.Tensor: pass",
    "def f(tensors) -> torch.Tensor: pass",
    "def f(tensors: torch.Tensor) -> torch.Tensor: pass",
    "def f(tensors: List[float]) -> torch.Tensor: pass",
    "def f(tensors: Dict[str, torch.Tensor]) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], base_tensor) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], base_tensor: float) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], base_tensor: Optional[float]) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], base_tensor: List[torch.Tensor]) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], {name}) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], {name}=1.0) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], a: float, {name}) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], {name}: List[float] = [1.0, 2.0]) -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], {name}: List[float] = 'x') -> torch.Tensor: pass",
    "def f(tensors: List[torch.Tensor], {name}: List[int] = None) -> torch.Tensor: pass",
]


def bads():
    return st.fixed_dictionaries({"src": st.sampled_from(BAD), "name": st.sampled_from(["alpha", "weight", "t", "eps"])})


def refused(case, ctx):
    from typing import Dict, List, Optional

    from mergekit.merge_methods.easy_define import merge_method

    name = f"vp_bad_{next(_n)}"
    ns = {"torch": torch, "List": List, "Optional": Optional, "Dict": Dict}
    src = case["src"].replace("{name}", case["name"])
    exec(compile(src, f"<{name}>", "exec"), ns)  # noqa: S102
    ctx.interesting()
    ok = False
    try:
        merge_method(name=name)(ns["f"])
        ok = True
    except (ValueError, TypeError):
        pass
    require(not ok, "accepted the invalid method declaration: %s", src)
    try:
        from mergekit import merge_methods
        merge_methods.get(name)
    except Exception:  # noqa: BLE001
        return
    require(False, "a refused declaration was registered: %s", src)


# ---------------------------------------------------------------- order must not depend on hashing
def prepare():
    from vp import e2e
    e2e.warm()


TESTS = [
    Test("called", programs, called, quick=160, thorough=3000, shards=4, budget=60,
         rule="generated signatures registered and run through whole merges of 1-4 tiny models; non-trivial = two or more tensors and a parameter"),
    Test("refused", bads, refused, quick=60, thorough=300, rule="declarations of the documented invalid kinds; all count"),
]
