"""C04: a failed write or unreadable input is never reported as success."""
import json
import os
import shutil

import torch
from hypothesis import strategies as st

from vp import zoo
from vp.core import Rejected, Test, Violation, require
from vp.faults import Injector, file_size_limit, injecting, no_hang
from vp.gen import DTYPES, describe, make, same, seeds
from vp.models import merge, read_config, read_model, state, tensor_table, write_model, write_tensors

PROPERTY = "C04"
LEVEL = "fault_enumeration"
TECHNIQUE = ("property-based testing: generated writes and merges, with every observed I/O call in turn made to fail "
             "(injected errors, partial files, real file-size limits, obstructed paths) and generated damage to the inputs")
LEVEL_NOTE = "For each generated write or merge every I/O call it makes is failed once; generation itself is sampling. "
ASSUMPTIONS = [
    "faults are raised by the Python-level or native write calls (open for writing, rename, remove, mkdir, safetensors and torch "
    "serialization) or by the kernel through a file size limit; silent corruption by the disk is out of scope",
    "a failure to copy the tokenizer is documented as non-fatal and is excluded",
]


@st.composite
def writes(draw):
    n = draw(st.integers(1, 7))
    return {
        "tensors": [[f"t{i}", draw(st.sampled_from(["float32", "bfloat16", "int64"])),
                     draw(st.lists(st.integers(1, 5), min_size=1, max_size=2)), draw(seeds)] for i in range(n)],
        "limit": draw(st.sampled_from([1, 40, 80, 200, 10**9])),
        "safe": draw(st.booleans()), "async": draw(st.booleans()), "threads": draw(st.integers(1, 3)),
        "clone": draw(st.booleans()), "ctx": draw(st.booleans()),
        "kind": draw(st.sampled_from(["eio", "enospc", "runtime", "safetensors", "value"])),
        "persistent": draw(st.booleans()), "partial": draw(st.booleans()),
        "existing": draw(st.booleans()), "again": draw(st.booleans()),
    }


def do_write(case, d, want):
    from mergekit.io import TensorWriter

    w = TensorWriter(d, max_shard_size=case["limit"], safe_serialization=case["safe"], use_async=case["async"],
                     max_write_threads=case["threads"])
    if case["ctx"]:
        with w:
            for k, t in want.items():
                w.save_tensor(k, t, clone=case["clone"])
    else:
        for k, t in want.items():
            w.save_tensor(k, t, clone=case["clone"])
        w.finalize()


def complete(d, want, what):
    try:
        got = read_model(d)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}, but the output cannot be read: {type(e).__name__}: {e}") from None
    require(set(got) == set(want), "%s, but tensors are missing: %s", what, sorted(set(want) ^ set(got)))
    for k in want:
        require(same(got[k], want[k]), "%s, but %s reads back as %s, saved %s", what, k, describe(got[k]), describe(want[k]))


def writer(case, ctx):
    want = {k: make(s, sd, "normal" if dt != "int64" else "ints", DTYPES[dt]) for k, dt, s, sd in case["tensors"]}
    root = ctx.tmp()

    def fresh(i):
        d = os.path.join(root, f"out{i}")
        if case["existing"]:
            old = {k: torch.zeros_like(t) for k, t in want.items()}
            os.makedirs(d)
            write_tensors(d, old, "safetensors" if case["safe"] else "bin", 2)
        return d

    d = fresh("ok")
    inj = Injector(root)
    with injecting(inj), no_hang(60, "writing"):
        do_write(case, d, want)
    if not case["existing"]:
        complete(d, want, "the writer returned")
    n = inj.n
    require(n > 0, "no write call was observed")
    ctx.label(f"calls={min(n, 12)}", "async" if case["async"] else "sync", case["kind"])
    ctx.interesting(n >= 4)
    for k in range(n):
        d = fresh(k)
        inj = Injector(root, fail_at=k, persistent=case["persistent"], kind=case["kind"], partial=case["partial"])
        failed = None
        with injecting(inj), no_hang(60, f"writing with a failing {inj.kind}"):
            try:
                do_write(case, d, want)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                failed = e
        if failed is None:
            complete(d, want, f"a write fault ({inj.fired}) was not reported")
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def limited(draw):
    c = draw(writes())
    c["bytes"] = draw(st.sampled_from([0, 1, 8, 50, 100, 150, 200, 300, 500, 1000, 2000]))
    c["obstruct"] = draw(st.sampled_from([None, None, "final", "index", "tmp", "outdir-file"]))
    return c


def kernel(case, ctx):
    """Failures produced by the kernel, independent of how the writer is coded."""
    want = {k: make(s, sd, "normal" if dt != "int64" else "ints", DTYPES[dt]) for k, dt, s, sd in case["tensors"]}
    root = ctx.tmp()
    d = os.path.join(root, "out")
    ext, base = ("safetensors", "model") if case["safe"] else ("bin", "pytorch_model")
    ob = case["obstruct"]
    if ob == "outdir-file":
        with open(d, "w") as f:
            f.write("x")
    elif ob:
        probe = os.path.join(root, "probe")
        do_write(case, probe, want)
        names = sorted(os.listdir(probe))
        target = {"final": [n for n in names if n.endswith("." + ext)], "index": [n for n in names if n.endswith(".json")],
                  "tmp": [f"{base}-1.{ext}"]}[ob]
        if not target:
            raise Rejected()
        # a non-empty directory where a file has to go
        os.makedirs(os.path.join(d, target[-1], "x"))
    failed = None
    with no_hang(60, "writing"):
        try:
            if ob:
                do_write(case, d, want)
            else:
                with file_size_limit(case["bytes"]):
                    do_write(case, d, want)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            failed = e
    ctx.label("failed" if failed else "succeeded", ob or "rlimit")
    ctx.interesting(failed is not None)
    if failed is None:
        complete(d, want, f"writing under {ob or 'a file size limit of %d bytes' % case['bytes']} returned normally")


# ---------------------------------------------------------------- merges
D = {"hidden": 4, "inter": 6, "heads": 2, "kv": 2, "vocab": 6, "layers": 2}


@st.composite
def merges(draw):
    return {
        "seed": draw(seeds), "method": draw(st.sampled_from(["linear", "ties"])),
        "opts": {"out_shard_size": draw(st.sampled_from([200, 500, 10**9])), "async_write": draw(st.booleans()),
                 "write_threads": draw(st.integers(1, 2)), "safe_serialization": draw(st.booleans()),
                 "clone_tensors": draw(st.booleans()), "write_model_card": draw(st.booleans())},
        "kind": draw(st.sampled_from(["eio", "runtime", "enospc"])), "persistent": draw(st.booleans()),
        "partial": draw(st.booleans()),
    }


def setup(case, root):
    paths = []
    for i in range(2):
        p = os.path.join(root, f"m{i}")
        write_model(p, "llama", D, state("llama", D, case["seed"] + i))
        paths.append(p)
    return paths


def recipe(paths, method):
    cfg = {"models": [{"model": p, "parameters": {"weight": 0.5, "density": 0.5}} for p in paths], "merge_method": method}
    if method == "ties":
        cfg["base_model"] = paths[0]
    return cfg


def whole(out, what, card):
    try:
        got = read_model(out)
        cfg = read_config(out)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}, but the model cannot be read: {type(e).__name__}: {e}") from None
    require(set(got) == set(tensor_table("llama", D)), "%s, but tensors are missing", what)
    require(cfg.get("num_hidden_layers") == 2, "%s, but the configuration is incomplete", what)
    if card:
        for fn in ("README.md", "mergekit_config.yml"):
            require(os.path.isfile(os.path.join(out, fn)), "%s, but %s is missing", what, fn)
    return got


def merge_faults(case, ctx):
    root = ctx.tmp()
    paths = setup(case, root)
    outs = os.path.join(root, "outs")
    os.makedirs(outs)
    inj = Injector(outs)
    with injecting(inj), no_hang(120, "the merge"):
        merge(recipe(paths, case["method"]), os.path.join(outs, "ok"), **case["opts"])
    ref = whole(os.path.join(outs, "ok"), "the merge returned", case["opts"]["write_model_card"])
    n = inj.n
    ctx.label(f"calls={n // 5 * 5}+")
    ctx.interesting(n >= 3)
    for k in range(n):
        out = os.path.join(outs, f"o{k}")
        inj = Injector(outs, fail_at=k, persistent=case["persistent"], kind=case["kind"], partial=case["partial"])
        failed = None
        with injecting(inj), no_hang(120, "the merge"):
            try:
                merge(recipe(paths, case["method"]), out, **case["opts"])
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                failed = e
        if failed is None:
            got = whole(out, f"a fault ({inj.fired}) during the merge was not reported", case["opts"]["write_model_card"])
            for t in ref:
                require(same(ref[t], got[t]), "after fault %s the merge returned a different %s", inj.fired, t)
        shutil.rmtree(out, ignore_errors=True)


REQUIRED = [t for t in tensor_table("llama", D) if t != "lm_head.weight"]


@st.composite
def damaged(draw):
    return {
        "seed": draw(seeds), "method": draw(st.sampled_from(["linear", "ties", "slerp", "task_arithmetic", "nuslerp"])),
        "who": draw(st.integers(0, 1)), "fmt": draw(st.sampled_from(["safetensors", "bin"])), "shards": draw(st.integers(1, 4)),
        "damage": draw(st.sampled_from(["drop", "drop", "truncate", "empty", "remove-file", "garbage", "no-config", "index-liar",
                                        "shape"])),
        "which": draw(st.integers(0, 30)), "frac": draw(st.floats(0.0, 0.99)),
        "lazy": draw(st.booleans()),
        "opts": {"async_write": draw(st.booleans()), "out_shard_size": draw(st.sampled_from([200, 10**9]))},
    }


def missing_inputs(case, ctx):
    root = ctx.tmp()
    paths = []
    for i in range(2):
        p = os.path.join(root, f"m{i}")
        sd = state("llama", D, case["seed"] + i)
        if i == case["who"] and case["damage"] == "drop":
            del sd[REQUIRED[case["which"] % len(REQUIRED)]]
        if i == case["who"] and case["damage"] == "shape":
            # not reconcilable: a non-embedding tensor of another width
            k = [t for t in REQUIRED if "embed" not in t][case["which"] % (len(REQUIRED) - 1)]
            sd[k] = torch.zeros([x + 1 for x in sd[k].shape])
        write_model(p, "llama", D, sd, fmt=case["fmt"], shards=case["shards"])
        paths.append(p)
    p = paths[case["who"]]
    files = sorted(f for f in os.listdir(p) if f.endswith((".safetensors", ".bin")))
    f = os.path.join(p, files[case["which"] % len(files)])
    dm = case["damage"]
    if dm == "truncate":
        with open(f, "r+b") as fp:
            fp.truncate(int(os.path.getsize(f) * case["frac"]))
    elif dm == "empty":
        open(f, "wb").close()
    elif dm == "remove-file":
        os.remove(f)
    elif dm == "garbage":
        with open(f, "wb") as fp:
            fp.write(b"\xff" * 600)
    elif dm == "no-config":
        os.remove(os.path.join(p, "config.json"))
    elif dm == "index-liar":
        idx = [x for x in os.listdir(p) if x.endswith("index.json")]
        if not idx:
            raise Rejected()
        ip = os.path.join(p, idx[0])
        with open(ip) as fp:
            truth = json.load(fp)
        j = json.loads(json.dumps(truth))
        k = sorted(set(j["weight_map"]) - {"lm_head.weight"})[case["which"] % len(REQUIRED)]
        others = sorted(set(j["weight_map"].values()) - {j["weight_map"][k]})
        j["weight_map"][k] = others[case["which"] % len(others)]
        with open(ip, "w") as fp:
            json.dump(j, fp)
    if dm == "shape" and case["method"] in ("ties", "task_arithmetic"):
        raise Rejected()  # documented to skip mismatched inputs with a warning
    cfg = {"models": [{"model": q, "parameters": {"weight": 0.5, "density": 0.5}} for q in paths],
           "merge_method": case["method"]}
    if case["method"] in ("ties", "slerp", "task_arithmetic"):
        cfg["base_model"] = paths[0]
    if case["method"] == "slerp":
        cfg["parameters"] = {"t": 0.5}
    ctx.label(dm)
    ctx.interesting()
    try:
        with no_hang(120, "the merge"):
            merge(cfg, os.path.join(root, "out"), lazy_unpickle=case["lazy"], **case["opts"])
    except Violation:
        raise
    except Exception:
        return
    if dm == "index-liar":
        # the tensor can still be found if the shard that really holds it happens to be open: then it must be the right one
        with open(ip, "w") as fp:
            json.dump(truth, fp)
        merge(cfg, os.path.join(root, "ref"), lazy_unpickle=case["lazy"], **case["opts"])
        ref, got = read_model(os.path.join(root, "ref")), read_model(os.path.join(root, "out"))
        require(set(ref) == set(got) and all(same(ref[t], got[t]) for t in ref),
                "a merge with a wrong index entry for %s returned normally with other tensors", k)
        return
    require(False, "a merge whose input %s was damaged (%s) returned normally", os.path.basename(f), dm)


# ---------------------------------------------------------------- every architecture
ARCHS = sorted(a for a in zoo.KNOWN if not a.startswith("Mamba"))


@st.composite
def kinds(draw):
    arch = draw(st.sampled_from(ARCHS))
    knobs = zoo.KNOWN[arch][1]
    return {"arch": arch, "options": {k: draw(st.sampled_from(list(v))) for k, v in knobs if draw(st.booleans())},
            "seed": draw(seeds), "who": draw(st.integers(0, 1)), "which": draw(st.integers(0, 200)),
            "method": draw(st.sampled_from(["linear", "task_arithmetic", "passthrough"])), "lazy": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["float32", None]))}


def any_missing(case, ctx):
    """A tensor that the architecture requires is missing from one model."""
    from mergekit.architecture import get_architecture_info
    from mergekit.common import ModelReference
    from mergekit.config import MergeConfiguration
    from mergekit.options import MergeOptions

    root = ctx.tmp()
    n = 1 if case["method"] == "passthrough" else 2
    who = case["who"] % n
    paths = []
    for i in range(n):
        m = zoo.build(case["arch"], case["options"], case["seed"] + i)
        paths.append(os.path.join(root, f"m{i}"))
        m.save_pretrained(paths[-1], save_original_format=True)
    cfg = {"models": [{"model": p, "parameters": {"weight": 0.5}} for p in paths], "merge_method": case["method"]}
    if case["dtype"]:
        cfg["dtype"] = case["dtype"]
    if case["method"] == "task_arithmetic":
        cfg["base_model"] = paths[0]
    out = os.path.join(root, "out")
    merge(cfg, out, lazy_unpickle=case["lazy"])

    info = get_architecture_info(MergeConfiguration.model_validate(cfg), MergeOptions())
    have = read_model(paths[who])
    needed = []
    for w in info.all_weights(ModelReference.model_validate(paths[who]).config()):
        at = [k for k in (w.name, *(w.aliases or ())) if k in have]
        if at and not w.optional and not [k for k in (w.tied_names or ()) if k in have]:
            needed.append(at)
    if not needed:
        raise Rejected()
    gone = needed[case["which"] % len(needed)]
    for k in gone:
        del have[k]
    for f in os.listdir(paths[who]):
        if f.endswith(".safetensors"):
            write_tensors(paths[who], have, "safetensors", 1)
    ctx.label(case["arch"])
    ctx.interesting()
    try:
        merge(cfg, os.path.join(root, "out2"), lazy_unpickle=case["lazy"])
    except Exception:  # noqa: BLE001
        return
    got, ref = read_model(os.path.join(root, "out2")), read_model(out)
    require(False, "a %s merge of %s models, one of which lacks the required %s, returned normally, with %d of %d tensors",
            case["method"], case["arch"], gone, len(set(got) & set(ref)), len(ref))


def prepare():
    import tempfile

    d = tempfile.mkdtemp(prefix="vp-c04-")
    try:
        merge(recipe(setup({"seed": 1}, d), "linear"), os.path.join(d, "o"))
    except Exception:
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)


TESTS = [
    Test("writer", writes, writer, quick=600, thorough=12000, shards=8, budget=60,
         rule="a generated sequence of saves; every I/O call it makes is failed in turn (transient or persistent, with or without "
              "a partial file); non-trivial = at least 4 I/O calls"),
    Test("kernel", limited, kernel, quick=800, thorough=12000, shards=4, budget=60,
         rule="writes under a real file size limit or with an obstructed path; non-trivial = the write failed"),
    Test("merge_faults", merges, merge_faults, quick=60, thorough=1200, shards=8, budget=70,
         rule="whole merges with every I/O call failed in turn; non-trivial = at least 3 I/O calls"),
    Test("missing_inputs", damaged, missing_inputs, quick=500, thorough=8000, shards=8, budget=60,
         rule="merges with one required tensor missing, mis-shaped or mis-indexed, or one input file truncated, emptied, "
              "removed or overwritten"),
    Test("any_missing", kinds, any_missing, quick=250, thorough=6000, shards=8, budget=60,
         rule="merges of real models of every kind with a definition, one of which lacks a tensor that the kind requires"),
]
