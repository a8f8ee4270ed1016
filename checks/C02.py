"""C02: the parallel multi-device engine against the reference evaluation.

No accelerator exists here: `cpu:0..cpu:3` stand in for the devices and streams
are no-ops, so partitioning, threads, queue and hand-over run unchanged."""
import contextlib
import os
import threading

import torch
from hypothesis import strategies as st

import mergekit.common
import mergekit.multigpu_executor as mg
from vp.core import Test, Violation, require
from vp.graphs import Boom, Graph, Node
from vp.models import merge
from vp.recipes import config, difference, recipes, snapshot, write_inputs

PROPERTY = "C02"
ASSUMPTIONS = [
    "CPU devices cpu:0..cpu:3 with no-op streams stand in for accelerators: device placement of tensors is not observed",
    "thread timing is perturbed by delays inside generated tasks, not controlled exhaustively",
    "graphs have the shape the engine documents: main-thread tasks lead or trail, per-device tasks depend on leading or per-device tasks only",
]
LEVEL_NOTE = "Generated graphs and delay patterns on the real engine with stand-in devices; interleavings are sampled."
HANG_S = 60


class _Stream:
    def __init__(self, device=None):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Mod:
    @staticmethod
    def synchronize(device=None):
        pass

    @staticmethod
    def device_count():
        return DEVICES[0]


DEVICES = [3]


def prepare():
    for m in (mg, mergekit.common):
        if hasattr(m, "get_torch_accelerator_type"):
            m.get_torch_accelerator_type = lambda *a, **k: "cpu"
        if hasattr(m, "get_torch_accelerator_count"):
            m.get_torch_accelerator_count = lambda *a, **k: DEVICES[0]
        if hasattr(m, "get_torch_accelerator_module"):
            m.get_torch_accelerator_module = lambda *a, **k: _Mod
    torch.cuda.Stream = _Stream
    torch.cuda.stream = lambda s: contextlib.nullcontext()
    torch.cuda.synchronize = lambda *a, **k: None


@st.composite
def graphs(draw):
    nodes = []
    sleeps = draw(st.sampled_from([[0], [0, 0, 1], [0, 0, 0, 4], [1, 2]]))

    def add(kind, cands, kmax=3):
        k = min(len(cands), draw(st.sampled_from([0, 1, 1, 2, 3][: kmax + 2])))
        deps = [["abc"[j], draw(st.sampled_from(cands))] for j in range(k)]
        nodes.append({
            "deps": deps, "role": kind, "main": kind in ("lead", "trail"), "per_gpu": kind == "dup",
            "prio": draw(st.sampled_from([0, 1, -5])), "label": draw(st.sampled_from([None, "a", "b"])),
            "accel": draw(st.booleans()), "kind": draw(st.sampled_from(["val", "val", "tensor", "nested", "none"])),
            "sleep": draw(st.sampled_from(sleeps)),
        })
        return len(nodes) - 1

    lead, dup, par, trail = [], [], [], []
    for _ in range(draw(st.integers(0, 3))):
        lead.append(add("lead", lead))
    for _ in range(draw(st.integers(0, 2))):
        dup.append(add("dup", lead + dup))
    for _ in range(draw(st.integers(0, 14))):
        pool = par[-4:] if draw(st.booleans()) else []
        par.append(add("par", lead + dup + pool))
    for _ in range(draw(st.integers(0, 4))):
        i = add("trail", lead + dup + par + trail)
        if not nodes[i]["deps"]:
            nodes[i]["role"] = "lead"
        trail.append(i)
    n = len(nodes)
    if n == 0:
        lead.append(add("lead", []))
        n = 1
    tsel = draw(st.sampled_from(["sinks", "some", "all"]))
    used = {d for nd in nodes for _, d in nd["deps"]}
    sinks = [i for i in range(n) if i not in used]
    if tsel == "sinks":
        targets = sinks
    elif tsel == "all":
        targets = list(range(n))
    else:
        targets = sorted(set(sinks) | set(draw(st.lists(st.integers(0, n - 1), max_size=3))))
    return {"nodes": nodes, "targets": targets, "devices": draw(st.integers(1, 4)),
            "storage": draw(st.sampled_from([None, "cpu"])), "fail": None}


def drive(g, case):
    """Run the engine in a thread of its own: that thread is the 'main' one."""
    res = {"pairs": [], "exc": None, "ident": None}

    def go():
        res["ident"] = threading.get_ident()
        try:
            ex = mg.MultiGPUExecutor([g.task(t) for t in case["targets"]], num_gpus=case["devices"],
                                     storage_device=torch.device(case["storage"]) if case["storage"] else None)
            for t, v in ex.run(quiet=True):
                res["pairs"].append((t, v))
        except BaseException as e:  # noqa: BLE001
            res["exc"] = e

    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(HANG_S)
    if th.is_alive():
        raise Violation(f"the run did not terminate within {HANG_S} s")
    return res


def no_parallel_work(case):
    return not any(n["role"] == "par" for n in case["nodes"])


def agrees(case, ctx):
    # known shape the engine does not schedule: per-device targets with nothing parallel
    g = Graph(case)
    try:
        res = drive(g, case)
        if res["exc"] is not None:
            raise res["exc"]
        for t, v in res["pairs"]:
            require(isinstance(t, Node), "yielded %r", t)
        got = [t.idx for t, _ in res["pairs"]]
        require(len(got) == len(set(got)), "results yielded twice: %s", sorted(got))
        require(set(got) == set(case["targets"]), "requested %s, got results for %s", sorted(set(case["targets"])), sorted(got))
        for t, v in res["pairs"]:
            require(g.matches(t.idx, v), "task %d gave %r, serial evaluation gives %r", t.idx, v,
                    g.wrap(t.idx, g.payload(t.idx)))
        require(not g.problems, "%s", "; ".join(g.problems[:3]))
        counts = {}
        for i, th in g.log:
            counts[i] = counts.get(i, 0) + 1
            if case["nodes"][i].get("main"):
                require(th == res["ident"], "main-thread-only task %d ran on another thread", i)
        for i, n in enumerate(case["nodes"]):
            c = counts.get(i, 0)
            if n["role"] == "dup":
                require(c <= case["devices"] + 1, "per-device task %d ran %d times on %d devices", i, c, case["devices"])
            else:
                require(c <= 1, "task %d ran %d times", i, c)
        npar = sum(n["role"] == "par" for n in case["nodes"])
        ctx.label(f"devices={case['devices']}", f"par>=4:{npar >= 4}", f"trail:{any(n['role'] == 'trail' for n in case['nodes'])}")
        ctx.interesting(npar >= 2 and len(case["nodes"]) > npar)
    finally:
        g.close()


@st.composite
def failing(draw):
    c = draw(graphs())
    need = set()
    todo = list(c["targets"])
    while todo:
        i = todo.pop()
        if i not in need:
            need.add(i)
            todo += [d for _, d in c["nodes"][i]["deps"]]
    c["fail"] = draw(st.sampled_from(sorted(need)))
    return c


def raises(case, ctx):
    g = Graph(case)
    try:
        before = set(threading.enumerate())
        res = drive(g, case)
        require(isinstance(res["exc"], Boom), "task %d raised, but the run ended with %r", case["fail"], res["exc"])
        require(case["fail"] not in [t.idx for t, _ in res["pairs"]], "a failed task was reported as done")
        for th in threading.enumerate():
            # the progress bars' monitor lives as long as the process
            if th not in before and type(th).__name__ != "TMonitor":
                th.join(20)
                require(not th.is_alive(), "worker threads outlive the failed run")
        ctx.label(case["nodes"][case["fail"]]["role"])
        ctx.interesting(len(g.log) > 1)
    finally:
        g.close()


def wide():
    """Many short parallel tasks whose results are all needed: stresses the hand-over."""
    @st.composite
    def s(draw):
        k = draw(st.integers(10, 60))
        nodes = [{"deps": [], "role": "par", "kind": "val", "sleep": 0} for _ in range(k)]
        m = draw(st.integers(0, 3))
        for j in range(m):
            deps = [[f"d{i}", i] for i in range(j, k, m)]
            nodes.append({"deps": deps, "role": "trail", "main": True, "kind": "val"})
        return {"nodes": nodes, "targets": list(range(len(nodes))) if draw(st.booleans()) or not m else list(range(k, k + m)),
                "devices": draw(st.integers(1, 4)), "storage": "cpu", "fail": None}
    return s()


@st.composite
def mixed(draw):
    """Main-thread-only tasks anywhere, also between parallel ones."""
    nodes = []
    sleeps = draw(st.sampled_from([[0], [0, 0, 1]]))
    for i in range(draw(st.integers(2, 10))):
        k = min(i, draw(st.sampled_from([0, 1, 1, 2, 2])))
        deps = [["abc"[j], draw(st.integers(max(0, i - 4), i - 1))] for j in range(k)]
        main = draw(st.booleans())
        nodes.append({"deps": deps, "role": "main" if main else "par", "main": main, "kind": draw(st.sampled_from(["val", "tensor"])),
                      "sleep": draw(st.sampled_from(sleeps))})
    n = len(nodes)
    used = {d for nd in nodes for _, d in nd["deps"]}
    sinks = [i for i in range(n) if i not in used]
    return {"nodes": nodes, "targets": sorted(set(sinks) | set(draw(st.lists(st.integers(0, n - 1), max_size=2)))),
            "devices": draw(st.integers(1, 3)), "storage": draw(st.sampled_from([None, "cpu"])), "fail": None}


def schedulable(nodes):
    """Every main-thread task can run before, or after, all of the others."""
    lead, trail = set(), set()
    for i, n in enumerate(nodes):
        if n["main"] and all(d in lead for _, d in n["deps"]):
            lead.add(i)
    for i in reversed(range(len(nodes))):
        if nodes[i]["main"] and all(j in trail for j, m in enumerate(nodes) if any(d == i for _, d in m["deps"])):
            trail.add(i)
    return all(not n["main"] or i in lead or i in trail for i, n in enumerate(nodes))


def anywhere(case, ctx):
    """Graphs whose main-thread tasks sit in the middle: refused before anything runs, or run correctly."""
    ok = schedulable(case["nodes"])
    ctx.label(f"schedulable={ok}")
    if not ok:
        g = Graph(case)
        try:
            res = drive(g, case)
            if isinstance(res["exc"], RuntimeError) and not g.log:
                ctx.interesting()
                return
        finally:
            g.close()
    agrees(case, ctx)


# ---- whole merges

def merge_cases():
    return st.fixed_dictionaries({
        "recipe": recipes(random_ok=False), "devices": st.integers(1, 4),
        "o": st.fixed_dictionaries({
            "safe_serialization": st.booleans(), "out_shard_size": st.sampled_from([5 * 10**9, 1, 300, 1000]),
            "lazy_unpickle": st.booleans(), "async_write": st.booleans(), "write_threads": st.sampled_from([1, 3]),
            "clone_tensors": st.booleans(), "low_cpu_memory": st.booleans(), "read_to_gpu": st.booleans(),
        })})


def merges(case, ctx):
    r = case["recipe"]
    root = ctx.tmp()
    paths = write_inputs(r, root)
    cfg = config(r, paths)
    merge(cfg, os.path.join(root, "serial"), random_seed=0)
    DEVICES[0] = case["devices"]
    res = {"exc": None}

    def go():
        try:
            merge(cfg, os.path.join(root, "parallel"), multi_gpu=True, random_seed=0, **case["o"])
        except BaseException as e:  # noqa: BLE001
            res["exc"] = e

    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(HANG_S)
    if th.is_alive():
        raise Violation(f"the merge did not terminate within {HANG_S} s")
    if res["exc"] is not None:
        raise res["exc"]
    d = difference(snapshot(os.path.join(root, "serial"), tokenizer=bool(r["tok"])),
                   snapshot(os.path.join(root, "parallel"), tokenizer=bool(r["tok"])))
    require(d is None, "merging on %d devices gives another result: %s", case["devices"], d)
    ctx.label(r["method"]["name"], r["arch"], f"devices={case['devices']}")
    ctx.interesting(case["devices"] > 1)


TESTS = [
    Test("merges", merge_cases, merges, quick=140, thorough=6000, shards=6, budget=60,
         rule="whole merges with the multi-device engine and generated writing options against serial ones; non-trivial = more "
              "than one device"),
    Test("anywhere", mixed, anywhere, quick=500, thorough=10000, shards=2, budget=60,
         rule="graphs whose main-thread-only tasks may sit anywhere; the engine refuses before running anything, or obeys; "
              "non-trivial = refused or at least 2 parallel tasks and one other"),
    Test("agrees", graphs, agrees, quick=900, thorough=20000, shards=4, budget=60,
         rule="leading / per-device / parallel / trailing graphs of up to 23 tasks with generated delays on 1-4 stand-in "
              "devices; non-trivial = at least 2 parallel tasks and one other"),
    Test("wide", wide, agrees, quick=250, thorough=6000, shards=2, budget=60,
         rule="10-60 instantaneous parallel tasks whose results are all targets or feed main-thread tasks; non-trivial = "
              "some task beside the parallel ones"),
    Test("raises", failing, raises, quick=300, thorough=6000, shards=2, budget=60,
         rule="one needed task raises; non-trivial = more than one task ran"),
]
