"""C05: pickled checkpoints read lazily are the checkpoints torch would read, and never run code."""
import collections
import functools
import importlib
import json
import operator
import os
import pickle
import shutil
import sys
import threading
import zipfile

import torch
from hypothesis import strategies as st

from mergekit.io import LazyTensorLoader, ShardedTensorIndex
from mergekit.io.loader import TensorLoader
from vp.core import Test, require
from vp.gen import DTYPES, describe, make, same, seeds

PROPERTY = "C05"
ASSUMPTIONS = [
    "checkpoints are zip-format torch.save archives of a flat mapping name -> tensor, optionally wrapped in "
    "{'state_dict': ...} with plain metadata, as written by torch >= 1.6",
]

PICKLE_DTYPES = ["float32", "float16", "bfloat16", "float64", "int64", "int32", "int16", "int8", "uint8", "bool"]


@st.composite
def storages(draw):
    n = draw(st.integers(1, 4))
    return [{"dtype": draw(st.sampled_from(PICKLE_DTYPES)), "numel": draw(st.integers(0, 40)), "seed": draw(seeds)}
            for _ in range(n)]


@st.composite
def views(draw, store):
    """A tensor over a storage: plain, offset, strided, transposed, expanded, scalar, empty."""
    n = store["numel"]
    kind = draw(st.sampled_from(["full", "slice", "step", "matrix", "matrix_t", "scalar", "empty", "expand", "cube", "narrow"]))
    if n == 0 or kind == "empty":
        return {"off": draw(st.integers(0, n)), "size": draw(st.sampled_from([[0], [0, 3], [2, 0]])), "stride": None}
    off = draw(st.integers(0, n - 1))
    room = n - off
    if kind == "full":
        return {"off": 0, "size": [n], "stride": [1]}
    if kind == "scalar":
        return {"off": off, "size": [], "stride": []}
    if kind == "slice":
        return {"off": off, "size": [draw(st.integers(1, room))], "stride": [1]}
    if kind == "step":
        k = draw(st.integers(1, 4))
        return {"off": off, "size": [draw(st.integers(1, (room - 1) // k + 1))], "stride": [k]}
    if kind == "expand":
        return {"off": off, "size": [draw(st.integers(1, 4)), draw(st.integers(1, room))], "stride": [0, 1]}
    c = draw(st.integers(1, max(1, min(6, room))))
    r = draw(st.integers(1, max(1, room // c)))
    if kind == "matrix":
        return {"off": off, "size": [r, c], "stride": [c, 1]}
    if kind == "matrix_t":
        return {"off": off, "size": [c, r], "stride": [1, c]}
    if kind == "narrow":
        w = draw(st.integers(1, c))
        return {"off": off, "size": [r, w], "stride": [c, 1]}
    d = draw(st.integers(1, max(1, room // (r * c))))
    order = draw(st.permutations([0, 1, 2]))
    size, stride = [d, r, c], [r * c, c, 1]
    return {"off": off, "size": [size[i] for i in order], "stride": [stride[i] for i in order]}


@st.composite
def checkpoints(draw):
    ss = draw(storages())
    n = draw(st.integers(1, 7))
    ts = []
    for i in range(n):
        k = draw(st.integers(0, len(ss) - 1))
        ts.append({"name": f"layer.{i}.w", "storage": k, "param": draw(st.booleans()), **draw(views(ss[k]))})
    return {
        "storages": ss,
        "tensors": ts,
        "wrap": draw(st.sampled_from(["dict", "ordered", "dict", "state_dict", "state_dict_meta"])),
        "saved_as": draw(st.sampled_from(["pytorch_model.bin", "checkpoint.pt", "a.b.c.pth", "pytorch_model-00001-of-00002.bin"])),
        "renamed": draw(st.sampled_from([None, None, "pytorch_model.bin", "model.ckpt", "x.y.bin", "archive.pt"])),
        "order": draw(st.permutations(list(range(7)))),
        "twice": draw(st.booleans()),
        "lazy": draw(st.sampled_from([True, True, True, False])),
        "via": draw(st.sampled_from(["loader", "index"])),
    }


def build(case):
    stores = []
    for s in case["storages"]:
        dt = DTYPES[s["dtype"]]
        stores.append(make([s["numel"]], s["seed"], "normal" if dt.is_floating_point else "ints", dt))
    sd = {}
    for t in case["tensors"]:
        base = stores[t["storage"]]
        if t["stride"] is None:
            x = base[:0].reshape(t["size"])
        else:
            x = torch.as_strided(base, t["size"], t["stride"], t["off"])
        if t["param"] and x.is_floating_point():
            x = x.detach().requires_grad_(False)
        sd[t["name"]] = x
    return sd


def save(case, d):
    sd = build(case)
    want = {k: v.clone() for k, v in sd.items()}
    obj = sd
    if case["wrap"] == "ordered":
        obj = collections.OrderedDict(sd)
    elif case["wrap"] == "state_dict":
        obj = {"state_dict": sd}
    elif case["wrap"] == "state_dict_meta":
        obj = {"epoch": 3, "note": "hello", "state_dict": collections.OrderedDict(sd), "lr": [0.1, 0.2]}
    p = os.path.join(d, case["saved_as"])
    torch.save(obj, p)
    if case["renamed"]:
        q = os.path.join(d, case["renamed"])
        os.rename(p, q)
        p = q
    return p, want


def agrees(case, ctx):
    d = ctx.tmp()
    p, want = save(case, d)
    wrapped = case["wrap"].startswith("state_dict")
    if case["via"] == "index" or wrapped:
        idx = ShardedTensorIndex.from_file(p)
        require(set(idx.tensor_paths) == set(want), "index of %s lists %s, the file holds %s",
                os.path.basename(p), sorted(idx.tensor_paths), sorted(want))
        require(not idx.is_safetensors, "pickle taken for safetensors")
        ld = LazyTensorLoader(idx, lazy_unpickle=case["lazy"])
    else:
        ld = TensorLoader.get(p, use_lazy_unpickle=case["lazy"], device="cpu")
        require(set(ld.keys()) == set(want), "loader lists %s, the file holds %s", sorted(ld.keys()), sorted(want))
    names = sorted(want)
    order = [names[i] for i in case["order"] if i < len(names)]
    if case["twice"]:
        order = order + order
    for k in order:
        got = ld.get_tensor(k)
        require(same(got, want[k]), "%s read %s as %s, torch reads %s", "lazily" if case["lazy"] else "eagerly",
                k, describe(got), describe(want[k]))
    nonplain = any(t["stride"] is None or t["off"] or t["stride"] != [1] for t in case["tensors"])
    ctx.label("lazy" if case["lazy"] else "eager", case["wrap"], "renamed" if case["renamed"] else "kept-name")
    ctx.interesting(case["lazy"] and nonplain)


class Boom:
    """Pickles to a call of an arbitrary importable function."""

    def __init__(self, fn, args):
        self.fn, self.args = fn, args

    def __reduce__(self):
        return (self.fn, self.args)


GADGETS = {
    "system": lambda p: Boom(os.system, (f"touch {p}",)),
    "mkdir": lambda p: Boom(os.mkdir, (p,)),
    "open": lambda p: Boom(open, (p, "w")),
    "exec": lambda p: Boom(exec, (f"open({p!r}, 'w').close()",)),
    "eval": lambda p: Boom(eval, (f"open({p!r}, 'w').close()",)),
    "rename": lambda p: Boom(os.rename, (p + ".src", p)),
    "makedirs": lambda p: Boom(os.makedirs, (p,)),
    "copyfile": lambda p: Boom(shutil.copyfile, (p + ".src", p)),
    "torch_save": lambda p: Boom(torch.save, (1, p)),
    # no effect of their own, but parts to build one from
    "getattr": lambda p: Boom(getattr, (p, "upper")),
    "attrgetter": lambda p: Boom(operator.attrgetter, ("upper",)),
    "methodcaller": lambda p: Boom(operator.methodcaller, ("upper",)),
    "partial": lambda p: Boom(functools.partial, (os.mkdir, p)),
    "import": lambda p: Boom(importlib.import_module, ("os",)),
    "globals": lambda p: Boom(globals, ()),
    "compile": lambda p: Boom(compile, ("1", "x", "eval")),
    "map": lambda p: Boom(map, (os.mkdir, [p])),
}


@st.composite
def hostile(draw):
    c = draw(checkpoints())
    c["saved_as"], c["renamed"] = "pytorch_model.bin", None
    return {
        "ckpt": c,
        "gadget": draw(st.sampled_from(sorted(GADGETS))),
        "where": draw(st.sampled_from(["value", "meta", "root", "nested"])),
        "lazy": draw(st.booleans()), "protocol": draw(st.sampled_from([2, 2, 3, 4, 5])),
        "via": draw(st.sampled_from(["loader", "sharded", "loader", "index", "disk"])),
    }


def never_runs(case, ctx):
    d = ctx.tmp()
    flag = os.path.join(d, "pwned")
    open(flag + ".src", "w").close()
    sd = build(case["ckpt"])
    bomb = GADGETS[case["gadget"]](flag)
    w = case["where"]
    obj = bomb if w == "root" else dict(sd)
    if w == "value":
        obj["zz.weight"] = bomb
    elif w == "meta":
        obj = {"state_dict": sd, "hyper": bomb}
    elif w == "nested":
        obj["extra"] = {"deep": [bomb]}
    p = os.path.join(d, "pytorch_model.bin")
    torch.save(obj, p, pickle_protocol=case["protocol"])  # decides the names of built-in functions, too
    require(not os.path.exists(flag), "harness: gadget ran while saving")
    raised = False
    try:
        if case["via"] == "loader":
            TensorLoader.get(p, use_lazy_unpickle=case["lazy"], device="cpu")
        else:
            if case["via"] == "sharded":
                with open(p + ".index.json", "w") as f:
                    json.dump({"metadata": {}, "weight_map": {k: os.path.basename(p) for k in sd}}, f)
            idx = ShardedTensorIndex.from_file(p) if case["via"] == "index" else ShardedTensorIndex.from_disk(d)
            LazyTensorLoader(idx, lazy_unpickle=case["lazy"]).get_tensor(sorted(sd)[0])
    except Exception:  # noqa: BLE001
        raised = True
    require(not os.path.exists(flag), "opening a checkpoint executed code embedded in it (%s in %s)",
            case["gadget"], w)
    require(raised, "a checkpoint that embeds a call to %s was accepted", case["gadget"])
    ctx.label(case["gadget"], case["via"], "lazy" if case["lazy"] else "eager")
    ctx.interesting()


def pickle_restored(case, ctx):
    """Opening a checkpoint leaves the process's own pickle machinery alone."""
    before = (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor)
    d = ctx.tmp()
    p, want = save(case, d)
    if case["lazy"] and case["order"][0] % 2:
        with open(p, "r+b") as f:  # damage the archive: opening must fail, and still restore
            f.truncate(max(1, os.path.getsize(p) // 2))
        try:
            TensorLoader.get(p, use_lazy_unpickle=True, device="cpu")
        except Exception:  # noqa: BLE001
            ctx.label("failed-open")
        else:
            require(False, "a truncated archive was accepted")
    else:
        try:
            TensorLoader.get(p, use_lazy_unpickle=case["lazy"], device="cpu")
        except Exception:  # noqa: BLE001
            if case["wrap"] in ("dict", "ordered"):
                raise
    require((pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor) == before,
            "opening a checkpoint left the pickle machinery patched")
    obj = {"a": torch.arange(3)}
    require(torch.equal(pickle.loads(pickle.dumps(obj))["a"], obj["a"]), "pickle no longer works")
    ctx.interesting(case["lazy"])


def threads(case, ctx):
    """Several threads open and read checkpoints of their own at the same time."""
    before = (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor)
    cases, n = case["files"], len(case["files"])
    saved = [save(c, ctx.tmp()) for c in cases]
    gate, problems = threading.Barrier(n), []
    old = sys.getswitchinterval()

    def work(i):
        p, want = saved[i]
        try:
            gate.wait(30)
            for _ in range(case["rounds"]):
                ld = LazyTensorLoader(ShardedTensorIndex(os.path.dirname(p), False, {k: os.path.basename(p) for k in want}, []),
                                      lazy_unpickle=True)
                for k in sorted(want):
                    got = ld.get_tensor(k)
                    if not same(got, want[k]):
                        problems.append(f"{k} read as {describe(got)}, torch reads {describe(want[k])}")
        except Exception as e:  # noqa: BLE001
            problems.append(f"{type(e).__name__}: {e}")

    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
    try:
        sys.setswitchinterval(1e-5)
        for th in ts:
            th.start()
        for th in ts:
            th.join(60)
            require(not th.is_alive(), "threads opening checkpoints block each other")
    finally:
        sys.setswitchinterval(old)
        after = (pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor)
        pickle.Unpickler, pickle.load, torch._utils._rebuild_tensor = before
    require(not problems, "%d threads: %s", n, "; ".join(problems[:2]))
    require(after == before, "opening checkpoints from %d threads left the pickle machinery patched", n)
    ctx.label(f"threads={n}")
    ctx.interesting()


@st.composite
def thread_cases(draw):
    return {"files": draw(st.lists(checkpoints(), min_size=2, max_size=5)), "rounds": draw(st.sampled_from([1, 3, 6]))}


TESTS = [
    Test("threads", thread_cases, threads, quick=200, thorough=4000, shards=2, budget=60,
         rule="2-5 threads open and read checkpoints of their own at once, 1-6 times; every case is non-trivial"),
    Test("agrees", checkpoints, agrees, quick=3000, thorough=60000, shards=5, budget=60,
         rule="checkpoints of 1-7 tensors over 1-4 shared storages (offset, strided, transposed, expanded, scalar, "
              "empty views; 10 dtypes; wrapped or not; renamed or not), read in a generated order; "
              "non-trivial = lazy read of at least one view that is not a whole plain storage"),
    Test("never_runs", hostile, never_runs, quick=2000, thorough=10000, shards=2, budget=60,
         rule="the same checkpoints with one embedded callable at the root, as a value, as metadata or nested; "
              "every case is non-trivial"),
    Test("pickle_restored", checkpoints, pickle_restored, quick=300, thorough=4000, shards=1, budget=60,
         rule="opening intact and truncated archives; non-trivial = lazy"),
]
