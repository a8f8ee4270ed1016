"""C01: serial task-graph execution."""
import gc

import torch
from hypothesis import strategies as st

from mergekit.graph import Executor, TaskUniverse
from vp.core import Test, require
from vp.graphs import Boom, Graph, Node

PROPERTY = "C01"
ASSUMPTIONS = ["a value supplied as precomputed is not itself a requested target",
               "release is observed through reference counting (CPython)"]
ARGS = ["a", "b", "c", "x_1"]


@st.composite
def graphs(draw):
    n = draw(st.one_of(st.integers(4, 12), st.integers(1, 3), st.integers(8, 30)))
    labels = draw(st.sampled_from([[None], [None, "a"], ["a", "b", "c"], ["model-1", "model-2", None, ""]]))
    prios = draw(st.sampled_from([[0], [0, 1, -1], [-1000, 1000, -10, 0, 10000]]))
    nodes = []
    for i in range(n):
        k = min(i, draw(st.sampled_from([1, 2, 0, 3, 2])))
        # reach far back as well as near, and let one task appear under two names
        deps = [[ARGS[j], draw(st.integers(0, i - 1) if draw(st.booleans()) else st.integers(max(0, i - 3), i - 1))]
                for j in range(k)] if i else []
        nodes.append({
            "deps": deps,
            "prio": draw(st.sampled_from(prios)),
            "label": draw(st.sampled_from(labels)),
            "accel": draw(st.booleans()),
            "kind": draw(st.sampled_from(["val", "val", "val", "tensor", "nested", "none"])),
        })
    targets = draw(st.lists(st.one_of(st.integers(0, n - 1), st.integers(max(0, n - 3), n - 1)), min_size=1, max_size=6))
    cand = sorted(set(range(n)) - set(targets))
    cached = draw(st.lists(st.sampled_from(cand), max_size=4, unique=True)) if cand and draw(st.booleans()) else []
    return {"nodes": nodes, "targets": targets, "cached": cached,
            "same_instance": draw(st.booleans()), "handles": draw(st.booleans()),
            "math": draw(st.sampled_from(["cpu", "cpu:0"])), "storage": draw(st.sampled_from(["cpu", "cpu:0"])),
            "api": draw(st.sampled_from(["run", "run", "run", "execute"])),
            "rerun": draw(st.booleans())}


def needed(nodes, targets, cached):
    seen = set()
    todo = list(targets)
    while todo:
        i = todo.pop()
        if i in seen or i in cached:
            continue
        seen.add(i)
        todo += [d for _, d in nodes[i]["deps"]]
    return seen


def evaluates(case, ctx):
    g = Graph(case)
    try:
        _evaluates(case, ctx, g)
        if case["rerun"]:
            # the same tasks in a second engine, values not carried over
            g.log.clear()
            _evaluates(case, ctx, g)
    finally:
        g.close()


def _evaluates(case, ctx, g):
    nodes, cached = case["nodes"], set(case["cached"])
    need = needed(nodes, case["targets"], cached)
    insts = {}
    tl = []
    for t in case["targets"]:
        if case["same_instance"]:
            tl.append(insts.setdefault(t, g.task(t)))
        else:
            tl.append(g.task(t))
    kw = {"math_device": torch.device(case["math"]), "storage_device": torch.device(case["storage"])}
    if cached or case["handles"]:
        u = TaskUniverse(tl)
        hs = [u.add_task(t) for t in tl]
        cv = {}
        for c in cached:
            h = u.get_handle(g.task(c))
            if h is not None:
                cv[h] = g.wrap(c, g.payload(c))
        ex = Executor(hs, cached_values=cv or None, **kw)
    else:
        ex = Executor(tl, **kw)

    consumers = {i: [] for i in range(len(nodes))}
    for i in need:
        for _, d in nodes[i]["deps"]:
            consumers[d].append(i)
    done = set()
    last_target = [None]
    leaks = []
    order_bad = []
    tset = set(case["targets"])

    def on_execute(idx):
        # anything whose consumers have all finished must be gone by now
        for j, ref in g.live.items():
            if j == idx or j == last_target[0]:
                continue
            if all(c in done for c in consumers[j]) and ref() is not None:
                leaks.append((j, idx))
        ready = [j for j in need - done - {idx} - tset
                 if all(d in done or d in cached for _, d in nodes[j]["deps"])]
        if idx not in tset and not cached:
            for j in ready:
                if (nodes[j]["label"] or "") == (nodes[idx]["label"] or "") and nodes[j]["prio"] > nodes[idx]["prio"]:
                    order_bad.append((idx, j))
        done.add(idx)
        if idx in tset:
            last_target[0] = idx  # the consumer may still hold the result yielded last

    g.on_execute = on_execute
    g.live.clear()
    got = []
    if case["api"] == "execute":
        ex.execute()
    else:
        it = ex.run(quiet=True)
        for task, value in it:
            require(isinstance(task, Node), "yielded %r instead of a task", task)
            got.append(task.idx)
            require(task.idx in tset, "yielded task %d, which was not requested", task.idx)
            require(g.matches(task.idx, value), "task %d gave %r, direct evaluation gives %r", task.idx, value,
                    g.wrap(task.idx, g.payload(task.idx)))
            del value, task
        require(sorted(got) == sorted(tset), "requested %s, got results for %s", sorted(tset), sorted(got))
    g.on_execute = None
    log = [i for i, _ in g.log]
    require(not g.problems, "%s", "; ".join(g.problems))
    require(len(log) == len(set(log)), "tasks executed twice: %s", sorted({i for i in log if log.count(i) > 1}))
    require(set(log) == need, "executed %s, needed %s", sorted(log), sorted(need))
    pos = {i: p for p, i in enumerate(log)}
    for i in log:
        for _, d in nodes[i]["deps"]:
            require(d in cached or pos[d] < pos[i], "task %d ran before its dependency %d", i, d)
    require(not leaks, "values still held after their last use: %s", leaks[:5])
    require(not order_bad, "ran task %s while a ready task of the same group had higher priority", order_bad[:3])
    del ex
    gc.collect(0)
    ctx.label(f"cached={len(cached) > 0}", f"labels={len({n['label'] for n in nodes})}")
    ctx.interesting(len(need) >= 4 and any(len(consumers[i]) > 1 for i in need))


@st.composite
def failing(draw):
    c = draw(graphs())
    c["fail"] = draw(st.sampled_from(sorted(needed(c["nodes"], c["targets"], set(c["cached"])))))
    c["api"], c["rerun"] = draw(st.sampled_from(["run", "execute"])), False
    return c


def raises(case, ctx):
    g = Graph(case)
    try:
        tl = [g.task(t) for t in case["targets"]]
        ex = Executor(tl)
        got = []
        try:
            if case["api"] == "execute":
                ex.execute()
            else:
                for t, v in ex.run(quiet=True):
                    got.append(t.idx)
                    require(g.matches(t.idx, v), "wrong value for %d", t.idx)
        except Boom:
            pass
        else:
            require(False, "task %d raised but the run ended normally", case["fail"])
        require(case["fail"] not in got, "a failed task was reported as done")
        log = [i for i, _ in g.log]
        require(log.count(case["fail"]) == 1, "failed task ran %d times", log.count(case["fail"]))
        require(log[-1] == case["fail"], "execution went on after a task failed")
        ctx.interesting(len(log) > 2)
    finally:
        g.close()


TESTS = [
    Test("evaluates", graphs, evaluates, quick=6000, thorough=150000, shards=6, budget=50,
         rule="random DAGs of 1-30 instrumented tasks (opaque, tensor, nested and None results; priorities, groups, "
              "accelerator flags; equal tasks rebuilt on every reference; duplicate targets; precomputed values); "
              "non-trivial = at least 4 needed tasks and a shared dependency"),
    Test("raises", failing, raises, quick=800, thorough=20000, shards=2, budget=50,
         rule="the same graphs with one needed task raising; non-trivial = more than 2 tasks ran"),
]
