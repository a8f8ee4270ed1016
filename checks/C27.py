"""C27: completing a partial model only adds what is missing."""
import hashlib
import json
import os

from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.gen import DTYPES, describe, make, same, seeds
from vp.models import read_model, seed_for, write_tensors

PROPERTY = "C27"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated complete and partial checkpoints (name prefixes, shardings, formats, repeated runs into one directory) "
             "against the union of the two computed independently")
ASSUMPTIONS = [
    "every tensor of the partial model is one of the complete model's, by the same name or below one common prefix",
    "a common prefix is the only one under which most tensors of the partial model are found",
    "a partial model that lacks nothing may be refused",
]

PARTS = ["model.embed.weight", "model.layers.0.w", "model.layers.0.b", "model.layers.1.w", "model.norm.weight", "lm_head.weight", "norm.weight", "proj", "w.0"]
PREFIXES = ["", "", "language_model", "model", "text", "lm"]
OTHER = ["vision.w", "vision.layers.0.w", "norm.weight", "projector.0.weight", "lm_head.weight", "model.norm.weight", "text.extra", "alone"]


@st.composite
def cases(draw):
    prefix = draw(st.sampled_from(PREFIXES))
    parts = draw(st.lists(st.sampled_from(PARTS), min_size=1, max_size=7, unique=True))
    other = draw(st.lists(st.sampled_from(OTHER), max_size=4, unique=True))
    rounds = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        rounds.append({"have": [draw(st.integers(0, 3)) > 0 for _ in parts], "outside": [draw(st.integers(0, 3)) == 0 for _ in other],
                       "seed": draw(seeds), "max": draw(st.sampled_from([None, 1, 40, 100, 10**9])), "cli": draw(st.booleans()), "dir": draw(st.sampled_from(["out", "out", None]))})
    return {"prefix": prefix, "parts": parts, "other": other, "seed": draw(seeds), "rounds": rounds,
            "base": {"fmt": draw(st.sampled_from(["safetensors", "safetensors", "bin"])), "shards": draw(st.sampled_from([1, 1, 2, 5])), "dtype": draw(st.sampled_from(["float32", "bfloat16"]))},
            "sub": {"fmt": draw(st.sampled_from(["safetensors", "safetensors", "bin"])), "shards": draw(st.sampled_from([1, 1, 2, 5])), "dtype": draw(st.sampled_from(["float32", "bfloat16", "float16"]))},
            "names": draw(st.sampled_from([["base", "sub"], ["Model-7B", "part"], ["a", "b c"]])), "shuffle": draw(st.booleans()), "left": draw(st.booleans())}


def shape(name):
    return [[4, 3], [5], [2, 2, 2], [1, 7]][seed_for(1, name) % 4]


def digest(path):
    out = {}
    for r, _d, fs in os.walk(path):
        for f in fs:
            with open(os.path.join(r, f), "rb") as fh:
                out[os.path.relpath(os.path.join(r, f), path)] = hashlib.sha256(fh.read()).hexdigest()
    return out


def place(base, sub):
    """{name in the base: name in the submodel}, or None if it is not clear."""
    cand = {"": sum(n in base for n in sub)}
    for p in {n.split(".")[0] for n in base if "." in n}:
        strip = {n[len(p) + 1:] if n.startswith(p + ".") else n for n in base}
        cand[p] = sum(n in strip for n in sub)
    top = max(cand.values())
    if cand[""] == top:
        best = ""
    else:
        best = [p for p in cand if cand[p] == top]
        if len(best) > 1:
            return None
        best = best[0]
    out = {}
    for n in sub:
        t = f"{best}.{n}" if best and f"{best}.{n}" in base else n
        if t not in base or t in out:
            return None
        out[t] = n
    return out


def fill(case, ctx):
    from mergekit.io.lazy_tensor_loader import LazyTensorLoader
    from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params, main

    root = ctx.tmp()
    pre = case["prefix"] + "." if case["prefix"] else ""
    names = [pre + p for p in case["parts"]] + case["other"]
    if len(set(names)) != len(names):
        raise Rejected()
    if case["shuffle"]:
        names = names[::-1]
    base = {n: make(shape(n), seed_for(case["seed"], n), "normal", DTYPES[case["base"]["dtype"]]) for n in names}
    bdir = os.path.join(root, "in", case["names"][0])
    os.makedirs(os.path.join(bdir, "more", "deep"))
    write_tensors(bdir, base, case["base"]["fmt"], case["base"]["shards"])
    plain = {"config.json": json.dumps({"model_type": "x", "n": 1}), "tokenizer.json": "{}", "more/deep/notes.txt": "hello", "README.md": "base"}
    for f, c in plain.items():
        with open(os.path.join(bdir, f), "w") as fh:
            fh.write(c)
    sharded = 0
    for ri, rnd in enumerate(case["rounds"]):
        sub = {p: make(shape(pre + p), seed_for(rnd["seed"] + 7, p), "normal", DTYPES[case["sub"]["dtype"]]) for p, h in zip(case["parts"], rnd["have"]) if h}
        for p, h in zip(case["other"], rnd["outside"]):
            if h and p not in sub:
                sub[p] = make(shape(p), seed_for(rnd["seed"] + 9, p), "normal", DTYPES[case["sub"]["dtype"]])
        where = place(set(base), list(sub))
        if not sub or where is None:
            raise Rejected()
        sdir = os.path.join(root, f"sub{ri}", case["names"][1])
        os.makedirs(sdir, exist_ok=True)
        write_tensors(sdir, sub, case["sub"]["fmt"], case["sub"]["shards"])
        with open(os.path.join(sdir, "config.json"), "w") as fh:
            json.dump({"model_type": "y"}, fh)
        before = digest(bdir), digest(sdir)
        out = os.path.join(root, "out") if rnd["dir"] else None
        kw = {}
        if rnd["max"]:
            kw["max_shard_size"] = rnd["max"]
        try:
            if rnd["cli"]:
                from click.testing import CliRunner

                args = [bdir, sdir] + (["--output_dir", out] if out else []) + (["--max_shard_size", str(rnd["max"])] if rnd["max"] else [])
                res = CliRunner().invoke(main, args)
                if res.exception is not None and not (isinstance(res.exception, SystemExit) and not res.exception.code):
                    raise res.exception
                done = out or os.path.join(root, f"sub{ri}", f"{case['names'][0]}--{case['names'][1]}")
            else:
                done = str(copy_and_fill_missing_params(bdir, sdir, output_dir=out, **kw))
        except Exception as e:  # noqa: BLE001
            if len(sub) >= len(base):
                ctx.label("complete, refused")
                return
            require(False, "filling failed: %s: %s", type(e).__name__, str(e)[:300])
        require((digest(bdir), digest(sdir)) == before, "a source was modified")
        if out:
            require(os.path.abspath(done) == out, "output went to %s", done)
        want = {n: (sub[where[n]] if n in where else t) for n, t in base.items()}
        got = read_model(done)
        require(set(got) == set(want), "output has the wrong tensors: %s", sorted(set(got) ^ set(want))[:5])
        for n in want:
            require(same(got[n], want[n]), "%s should be that of the %s model: %s, not %s", n, "partial" if n in where else "complete", describe(want[n]), describe(got[n]))
        entries = [f for f in os.listdir(done) if f in ("model.safetensors", "model.safetensors.index.json", "pytorch_model.bin", "pytorch_model.bin.index.json")]
        require(len(entries) == 1, "the output has several entry points: %s", entries)
        loader = LazyTensorLoader.from_disk(done)
        require(set(loader.index.tensor_paths) == set(want), "mergekit itself reads other tensors from the output")
        for n in want:
            require(same(loader.get_tensor(n), want[n]), "mergekit itself reads another %s from the output", n)
        loader.flush()
        if entries[0].endswith("index.json"):
            sharded += 1
            with open(os.path.join(done, entries[0])) as fh:
                idx = json.load(fh)
            files = set(idx["weight_map"].values())
            require(all(os.path.exists(os.path.join(done, f)) for f in files), "the index names files that do not exist")
            total = sum(t.numel() * t.element_size() for t in want.values())
            require(idx["metadata"]["total_size"] == total, "total_size is %s, should be %d", idx["metadata"]["total_size"], total)
        for f, c in plain.items():
            with open(os.path.join(done, f)) as fh:
                require(fh.read() == c, "%s is not that of the complete model", f)
        ctx.label("prefix" if where and any(k != v for k, v in where.items()) else "plain", case["base"]["fmt"] + "<" + case["sub"]["fmt"], f"round{ri}",
                  *(["mixed"] if any(k != v for k, v in where.items()) and any(k == v for k, v in where.items()) else []))
    if sharded:
        ctx.label("sharded")
    ctx.interesting(len(where) > 0 and len(where) < len(base))


def prepare():
    import mergekit.scripts.fill_missing_params  # noqa: F401


TESTS = [Test("fill", cases, fill, quick=1500, thorough=30000, shards=6, rule="some but not all tensors come from the partial model")]
