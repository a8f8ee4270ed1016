"""Instrumented task graphs for the execution-engine checks."""
import itertools
import threading
import time
import weakref
from typing import Any, Dict, Optional

import torch

from mergekit.graph import Task

REGISTRY: Dict[int, "Graph"] = {}
_ids = itertools.count(1)


class Val:
    """An opaque, weak-referenceable result."""

    __slots__ = ("payload", "__weakref__")

    def __init__(self, payload):
        self.payload = payload

    def __eq__(self, other):
        return isinstance(other, Val) and self.payload == other.payload

    __hash__ = None


class Boom(Exception):
    pass


class Graph:
    def __init__(self, case):
        self.gid = next(_ids)
        self.nodes = case["nodes"]
        self.log = []  # (index, thread id)
        self.problems = []
        self.live = {}
        self.lock = threading.Lock()
        self.on_execute = None
        self.fail = case.get("fail")
        self.values = {}
        REGISTRY[self.gid] = self

    def close(self):
        REGISTRY.pop(self.gid, None)

    def task(self, idx):
        return Node(gid=self.gid, idx=idx)

    def payload(self, idx):
        """Reference: recursive evaluation, memoised, written without the engine."""
        if idx not in self.values:
            n = self.nodes[idx]
            self.values[idx] = (idx, tuple(sorted((a, hash(self.payload(d))) for a, d in n["deps"])))
        return self.values[idx]

    def wrap(self, idx, payload):
        kind = self.nodes[idx].get("kind", "val")
        if kind == "tensor":
            return torch.tensor([float(idx), float(hash(payload) % 1000003)], dtype=torch.float64)
        if kind == "none":
            return None
        if kind == "nested":
            return {"p": payload, "t": [torch.tensor([float(idx)]), (torch.tensor(idx), "s")], "n": None}
        return Val(payload)

    def matches(self, idx, value):
        kind = self.nodes[idx].get("kind", "val")
        want = self.wrap(idx, self.payload(idx))
        if kind == "tensor":
            return isinstance(value, torch.Tensor) and torch.equal(value.cpu(), want)
        if kind == "none":
            return value is None
        if kind == "nested":
            return (
                isinstance(value, dict) and set(value) == {"p", "t", "n"} and value["p"] == want["p"]
                and isinstance(value["t"], list) and len(value["t"]) == 2 and torch.equal(value["t"][0], want["t"][0])
                and isinstance(value["t"][1], tuple) and torch.equal(value["t"][1][0], want["t"][1][0])
                and value["t"][1][1] == "s" and value["n"] is None
            )
        return value == want


class Node(Task[Any]):
    gid: int
    idx: int

    def _n(self):
        return REGISTRY[self.gid].nodes[self.idx]

    def arguments(self) -> Dict[str, Task]:
        # fresh, equal instances on every call
        return {a: Node(gid=self.gid, idx=d) for a, d in self._n()["deps"]}

    def priority(self) -> int:
        return self._n().get("prio", 0)

    def group_label(self) -> Optional[str]:
        return self._n().get("label")

    def uses_accelerator(self) -> bool:
        return bool(self._n().get("accel", False))

    def main_thread_only(self) -> bool:
        return bool(self._n().get("main", False))

    def duplicate_per_gpu(self) -> bool:
        return bool(self._n().get("per_gpu", False))

    def execute(self, **kw) -> Any:
        g = REGISTRY[self.gid]
        n = self._n()
        with g.lock:
            g.log.append((self.idx, threading.get_ident()))
        if set(kw) != {a for a, _ in n["deps"]}:
            g.problems.append(f"task {self.idx} got arguments {sorted(kw)}")
        for a, d in n["deps"]:
            if a in kw and not g.matches(d, kw[a]):
                g.problems.append(f"task {self.idx} argument {a} is not the value of task {d}: {kw[a]!r}"[:300])
        if g.on_execute:
            g.on_execute(self.idx)
        kw.clear()
        if n.get("sleep"):
            time.sleep(n["sleep"] / 1000.0)
        if g.fail == self.idx:
            raise Boom(f"task {self.idx} failed")
        v = g.wrap(self.idx, g.payload(self.idx))
        if isinstance(v, Val):
            g.live[self.idx] = weakref.ref(v)
        return v
