"""C03: what is written is what is read back, whatever the sharding / threading."""
import json
import os
import threading

import safetensors
import torch
from hypothesis import strategies as st

from mergekit.io import LazyTensorLoader, ShardedTensorIndex, TensorWriter
from vp.core import Test, require
from vp.gen import DTYPES, bits, describe, make, nbytes, same, seeds

PROPERTY = "C03"
ASSUMPTIONS = [
    "tensor names within one output are distinct (the planner never emits a name twice)",
    "rewriting a directory is explored for the same serialization format only",
]

NAME = st.sampled_from(
    ["model.embed_tokens.weight", "lm_head.weight", "model.norm.weight"]
    + [f"model.layers.{i}.{w}" for i in range(4) for w in ("a.weight", "b.bias")]
    + ["x", "a/b", "é", "w" * 40, "transformer.h.10.attn.bias"]
)


@st.composite
def tensor_spec(draw, dtypes=tuple(DTYPES)):
    return {
        "dtype": draw(st.sampled_from(dtypes)),
        "shape": draw(st.lists(st.integers(0, 6), min_size=0, max_size=3)),
        "seed": draw(seeds),
        "layout": draw(st.sampled_from(["plain", "plain", "transposed", "strided", "expanded", "shared", "view"])),
    }


@st.composite
def writing(draw):
    n = draw(st.integers(1, 9))
    names = draw(st.lists(NAME, min_size=n, max_size=n, unique=True))
    return {
        "tensors": [[nm, draw(tensor_spec())] for nm in names],
        # limits around the sizes that really occur, and the unlimited settings
        "limit": draw(st.one_of(st.sampled_from([-1, 0, 1, 10**9]), st.integers(1, 400),
                                st.tuples(st.just("sum"), st.integers(0, 8), st.integers(-1, 1)).map(list))),
        "async": draw(st.booleans()),
        "threads": draw(st.integers(1, 4)),
        "clone": draw(st.booleans()),
        "mutate": draw(st.booleans()),
        "savers": draw(st.integers(1, 3)),
        "ctx": draw(st.booleans()),
    }


@st.composite
def histories(draw):
    return {
        "safe": draw(st.booleans()),
        "basename": draw(st.sampled_from([None, None, None, "consolidated", "adapter_model"])),
        "rounds": [draw(writing()) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3])))],
        "lazy": draw(st.booleans()),
        "order": draw(st.permutations(list(range(9)))),
        "flush": draw(st.lists(st.booleans(), min_size=9, max_size=9)),
        "readers": draw(st.integers(1, 3)),
    }


def build(items):
    """Tensors for one round; 'shared' aliases an earlier tensor's storage."""
    out = {}
    prev = None
    for name, s in items:
        dt = DTYPES[s["dtype"]]
        base = make(s["shape"], s["seed"], "normal" if dt.is_floating_point else "ints", dt)
        lay = s["layout"]
        t = base
        if lay == "transposed" and base.dim() >= 2:
            t = base.transpose(0, -1)
        elif lay == "strided" and base.dim() >= 1 and base.shape[0] > 1:
            t = base[::2]
        elif lay == "expanded" and base.dim() >= 1:
            t = base[:1].expand_as(base) if base.shape[0] else base
        elif lay == "view" and base.dim() >= 1 and base.shape[0] > 1:
            t = base[1:]
        elif lay == "shared" and prev is not None:
            t = prev
        out[name] = t
        prev = t
    return out


def check_round(ctx, d, case, spec, safe, base):
    tensors = build(spec["tensors"])
    want = {k: v.clone().contiguous() for k, v in tensors.items()}
    limit = spec["limit"]
    if isinstance(limit, list):
        sizes = [nbytes(t) for t in tensors.values()]
        limit = max(1, sum(sizes[: max(1, limit[1])]) + limit[2])
    kw = {}
    if base:
        kw["override_basename"] = base
    w = TensorWriter(d, max_shard_size=limit, safe_serialization=safe, use_async=spec["async"],
                     max_write_threads=spec["threads"], **kw)
    items = list(tensors.items())
    clone = spec["clone"]

    def save(part):
        for k, t in part:
            w.save_tensor(k, t, clone=clone)

    errs = []
    if spec["savers"] == 1:
        save(items)
    else:
        def run(part):
            try:
                save(part)
            except BaseException as e:  # noqa: BLE001
                errs.append(e)

        ths = [threading.Thread(target=run, args=(items[i:: spec["savers"]],)) for i in range(spec["savers"])]
        [t.start() for t in ths]
        [t.join() for t in ths]
        if errs:
            raise errs[0]
    if clone and spec["mutate"]:
        # a cloned tensor belongs to the writer: later changes must not reach the file
        for t in {id(x): x for x in tensors.values()}.values():
            if t.numel() and not any(s == 0 for s in t.stride()):
                t.zero_()
    if spec["ctx"]:
        with w:
            pass
    else:
        w.finalize()

    ext = "safetensors" if safe else "bin"
    prefix = base or ("model" if safe else "pytorch_model")
    index_path = os.path.join(d, f"{prefix}.{ext}.index.json")
    single = os.path.join(d, f"{prefix}.{ext}")
    sizes = {k: nbytes(t) for k, t in want.items()}
    total = sum(sizes.values())

    def load(fn):
        p = os.path.join(d, fn)
        require(os.path.isfile(p), "file %s named by the output is missing", fn)
        if safe:
            with safetensors.safe_open(p, framework="pt") as f:
                return {k: f.get_tensor(k) for k in f.keys()}
        return torch.load(p, weights_only=True)

    if os.path.exists(index_path):
        with open(index_path) as f:
            idx = json.load(f)
        wm = idx["weight_map"]
        require(set(wm) == set(want), "index lists %s, saved %s", sorted(wm), sorted(want))
        require(idx["metadata"]["total_size"] == total, "total_size %s, real %s",
                idx["metadata"]["total_size"], total)
        files = sorted(set(wm.values()))
        require(not os.path.exists(single), "both a sharded index and a single-file model are present: "
                "a reader that prefers %s gets another model", os.path.basename(single))
        n = len(files)
        require(n > 1, "sharded index for %d file", n)
        require(files == [f"{prefix}-{i + 1:05d}-of-{n:05d}.{ext}" for i in range(n)],
                "shard names %s do not follow the standard scheme", files)
        ctx.label("sharded")
    else:
        files = [os.path.basename(single)]
        wm = {k: files[0] for k in want}
    got = {}
    for fn in files:
        content = load(fn)
        for k in content:
            require(wm.get(k) == fn, "tensor %s is in %s but the index says %s", k, fn, wm.get(k))
            got[k] = content[k]
        size = sum(sizes[k] for k in content)
        if limit > 0:
            require(size <= limit or len(content) == 1, "shard %s holds %d bytes, limit %d", fn, size, limit)
        else:
            require(len(files) == 1, "unlimited shard size but %d shards", len(files))
    require(limit <= 0 or total > limit or len(files) == 1, "%d bytes fit in one shard of %d but %d were written",
            total, limit, len(files))
    require(set(got) == set(want), "read back %s, saved %s", sorted(got), sorted(want))
    for k in want:
        require(same(got[k], want[k]), "tensor %s read back as %s, saved %s", k, describe(got[k]), describe(want[k]))
    if len(case["rounds"]) == 1:
        on_disk = sorted(f for f in os.listdir(d) if f.endswith("." + ext))
        require(on_disk == files, "stray files: %s beside %s", on_disk, files)
    return want


def roundtrip(case, ctx):
    d = ctx.tmp()
    safe = case["safe"]
    for spec in case["rounds"]:
        want = check_round(ctx, d, case, spec, safe, case["basename"])
    ctx.label(f"rounds={len(case['rounds'])}", "async" if spec["async"] else "sync")
    ctx.interesting(len(want) > 1)
    if case["basename"]:
        return
    # mergekit's own reader: any order, any shard residency, several threads
    loader = LazyTensorLoader.from_disk(d, lazy_unpickle=case["lazy"])
    require(set(loader.index.tensor_paths) == set(want), "reader index lists %s, saved %s",
            sorted(loader.index.tensor_paths), sorted(want))
    require(sorted(k for s in loader.index.shards for k in s.contained_keys) == sorted(want),
            "shard listing does not partition the tensors")
    keys = sorted(want)
    order = [keys[i] for i in case["order"] if i < len(keys)]
    order = order + order[::2]
    bad = []

    def read(part, offset):
        for i, k in enumerate(part):
            if case["flush"][(i + offset) % 9]:
                loader.flush()
            try:
                t = loader.get_tensor(k)
            except Exception as e:  # noqa: BLE001
                bad.append((k, e))
                return
            if not same(t, want[k]):
                bad.append((k, t))
                return

    if case["readers"] == 1:
        read(order, 0)
    else:
        ths = [threading.Thread(target=read, args=(order[i:] + order[:i], i)) for i in range(case["readers"])]
        [t.start() for t in ths]
        [t.join() for t in ths]
    for k, t in bad:
        if isinstance(t, Exception):
            raise t
        require(False, "reader returned %s for %s, saved %s", describe(t), k, describe(want[k]))
    # names and aliases
    k0 = order[0]
    require(same(loader.get_tensor("no.such", aliases=["nor.this", k0]), want[k0]), "alias lookup")
    require(same(loader.get_tensor(k0, aliases=order[1:2]), want[k0]), "alias used although the name is present")
    require(loader.get_tensor("no.such", raise_on_missing=False) is None, "missing tensor is not None")
    require(loader.get_tensor("no.such", aliases=["nor.this"], raise_on_missing=False) is None, "missing alias")
    try:
        loader.get_tensor("no.such")
    except KeyError:
        pass
    else:
        require(False, "a missing tensor was returned")
    i1 = ShardedTensorIndex.from_disk(d)
    require(i1.is_safetensors == safe, "format flag")


TESTS = [
    Test("roundtrip", histories, roundtrip, quick=4000, thorough=60000, shards=8, budget=60,
         rule="1-3 rewrites of one directory, each 1-9 tensors of any dtype/shape/layout under shard limits "
              "around the occurring sizes, saved by 1-3 threads, sync/async; read back from the files and "
              "through the lazy loader in a generated order; non-trivial = more than one tensor in the last round"),
]
