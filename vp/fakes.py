"""Stand-ins for ray, lm_eval and cma, which are not installed here.

Only the behaviour mergekit.evo relies on is modelled, but that faithfully:
arguments are copied (arrays arrive read-only), object references given as
arguments are resolved first and their failure fails the call, an actor runs
its calls one at a time on a thread of its own (or on an event loop, when its
methods are coroutines), tasks wait for the devices they ask for, and a
placement group holds its device until it is removed.  The order in which
ready things run is drawn from a seeded generator.
"""
import asyncio
import contextlib
import copy
import inspect
import random
import sys
import threading
import time
import types


class World:
    """State shared by the stand-ins during one case."""

    def __init__(self, gpus=1, seed=0, jitter=0.002):
        self.gpus, self.free = gpus, gpus
        self.cond = threading.Condition()
        self.rng = random.Random(seed)
        self.jitter = jitter
        self.evals = []
        self.calls = []
        self.groups = set()
        self.threads = []
        self.stop = False
        self.peak = 0
        self.score = None
        self.fmin2 = None
        self.raise_in_eval = None
        self.lock = threading.Lock()
        self.local = threading.local()

    # Workers are processes that share nothing, so the bodies of tasks run one at a time here:
    # the libraries they call are not meant for several threads.
    @contextlib.contextmanager
    def body(self):
        self.lock.acquire()
        self.local.held = True
        try:
            yield
        finally:
            self.local.held = False
            self.lock.release()

    @contextlib.contextmanager
    def outside(self):
        """While a body waits, others run."""
        held = getattr(self.local, "held", False)
        if held:
            self.local.held = False
            self.lock.release()
        try:
            yield
        finally:
            if held:
                self.lock.acquire()
                self.local.held = True

    def pause(self):
        time.sleep(self.rng.choice([0, 0, self.jitter, 4 * self.jitter]))

    def acquire(self, n):
        with self.cond:
            while self.free < n and not self.stop:
                self.cond.wait(0.05)
            if self.stop:
                raise SystemExit
            self.free -= n
            self.peak = max(self.peak, self.gpus - self.free)

    def release(self, n):
        with self.cond:
            self.free += n
            self.cond.notify_all()

    def spawn(self, fn):
        t = threading.Thread(target=fn, daemon=True)
        self.threads.append(t)
        t.start()

    def close(self):
        self.stop = True
        with self.cond:
            self.cond.notify_all()


WORLD = World()


def use(world):
    global WORLD
    WORLD = world


class ObjectRef:
    def __init__(self):
        self._done = threading.Event()
        self._value = self._error = None

    def _set(self, value=None, error=None):
        self._value, self._error = value, error
        self._done.set()
        with WORLD.cond:
            WORLD.cond.notify_all()

    def _get(self):
        with WORLD.outside():
            while not self._done.wait(0.05):
                if WORLD.stop:
                    raise SystemExit
        if self._error is not None:
            raise self._error
        return copy_value(self._value)

    def __await__(self):
        while not self._done.is_set():
            yield from asyncio.sleep(0.001).__await__()
        return self._get()


def copy_value(v):
    import numpy as np

    if isinstance(v, ObjectRef):
        return v
    if isinstance(v, np.ndarray):
        v = v.copy()
        v.setflags(write=False)
        return v
    try:
        return copy.deepcopy(v)
    except Exception:  # noqa: BLE001 - handles and the like are shared
        return v


def _resolve(args, kwargs):
    args = [a._get() if isinstance(a, ObjectRef) else a for a in args]
    kwargs = {k: v._get() if isinstance(v, ObjectRef) else v for k, v in kwargs.items()}
    return args, kwargs


class RemoteFunction:
    def __init__(self, fn, **opts):
        self._fn, self._opts = fn, opts
        self.__name__ = getattr(fn, "__name__", "task")

    def options(self, **opts):
        return RemoteFunction(self._fn, **{**self._opts, **opts})

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly")

    def remote(self, *args, **kwargs):
        w = WORLD
        ref = ObjectRef()
        args, kwargs = [copy_value(a) for a in args], {k: copy_value(v) for k, v in kwargs.items()}
        strat = self._opts.get("scheduling_strategy")
        group = getattr(strat, "placement_group", None)
        n = self._opts.get("num_gpus") or 0

        def run():
            try:
                a, k = _resolve(args, kwargs)
                if group is not None:
                    group.ready()
                    with group.lock:
                        w.pause()
                        with w.body():
                            value = self._fn(*a, **k)
                else:
                    w.acquire(n)
                    try:
                        w.pause()
                        with w.body():
                            value = self._fn(*a, **k)
                    finally:
                        w.release(n)
                ref._set(value)
            except SystemExit:
                pass
            except BaseException as e:  # noqa: BLE001
                ref._set(error=e)

        w.spawn(run)
        return ref


class ActorMethod:
    def __init__(self, handle, name):
        self._handle, self._name = handle, name

    def remote(self, *args, **kwargs):
        return self._handle._submit(self._name, args, kwargs)


class ActorHandle:
    def __init__(self, cls, opts, args, kwargs):
        w = self._w = WORLD
        self._cls, self._queue = cls, []
        self._is_async = any(inspect.iscoroutinefunction(m) for _, m in inspect.getmembers(cls, inspect.isfunction))
        args, kwargs = [copy_value(a) for a in args], {k: copy_value(v) for k, v in kwargs.items()}
        n = opts.get("num_gpus") or 0
        self._error = None
        limit = opts.get("max_concurrency", 1000 if self._is_async else 1)

        def run():
            try:
                w.acquire(n)
                a, k = _resolve(args, kwargs)
                try:
                    with w.body():
                        obj = cls(*a, **k)
                except BaseException as e:  # noqa: BLE001
                    self._error = e
                    obj = None
                if self._is_async and obj is not None:
                    asyncio.run(self._serve_async(obj, limit))
                else:
                    self._serve(obj)
            except SystemExit:
                pass

        w.spawn(run)

    def _submit(self, name, args, kwargs):
        ref = ObjectRef()
        args, kwargs = [copy_value(a) for a in args], {k: copy_value(v) for k, v in kwargs.items()}
        with self._w.cond:
            self._queue.append((name, args, kwargs, ref))
            self._w.cond.notify_all()
        return ref

    def _serve(self, obj):
        while True:
            with self._w.cond:
                while not self._queue:
                    if self._w.stop:
                        return
                    self._w.cond.wait(0.05)
                name, args, kwargs, ref = self._queue.pop(0)
            if self._error is not None:
                ref._set(error=self._error)
                continue
            try:
                self._w.pause()
                a, k = _resolve(args, kwargs)
                with self._w.body():
                    value = getattr(obj, name)(*a, **k)
                ref._set(value)
            except SystemExit:
                return
            except BaseException as e:  # noqa: BLE001
                ref._set(error=e)

    async def _serve_async(self, obj, limit):
        sem = asyncio.Semaphore(limit)
        running = set()

        async def call(name, args, kwargs, ref):
            async with sem:
                try:
                    a, k = _resolve(args, kwargs)
                    r = getattr(obj, name)(*a, **k)
                    if inspect.isawaitable(r):
                        r = await r
                    ref._set(r)
                except BaseException as e:  # noqa: BLE001
                    ref._set(error=e)
                    if isinstance(e, (SystemExit, asyncio.CancelledError)):
                        raise

        while not self._w.stop:
            while self._queue:
                t = asyncio.ensure_future(call(*self._queue.pop(0)))
                running.add(t)
                t.add_done_callback(running.discard)
            await asyncio.sleep(0.001)
        for t in list(running):
            t.cancel()

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return ActorMethod(self, name)

    def __deepcopy__(self, memo):
        return self


class ActorClass:
    def __init__(self, cls, **opts):
        self._cls, self._opts = cls, opts

    def options(self, **opts):
        return ActorClass(self._cls, **{**self._opts, **opts})

    def remote(self, *args, **kwargs):
        return ActorHandle(self._cls, self._opts, args, kwargs)


def remote(*args, **opts):
    def wrap(x):
        return ActorClass(x, **opts) if inspect.isclass(x) else RemoteFunction(x, **opts)

    return wrap(args[0]) if args else wrap


def get(refs, timeout=None):
    if isinstance(refs, ObjectRef):
        return refs._get()
    return [r._get() for r in refs]


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    with WORLD.outside():
        return _wait(refs, num_returns, timeout)


def _wait(refs, num_returns, timeout):
    refs = list(refs)
    end = None if timeout is None else time.monotonic() + timeout
    while True:
        done = [r for r in refs if r._done.is_set()]
        if len(done) >= min(num_returns, len(refs)) or WORLD.stop or (end is not None and time.monotonic() >= end):
            WORLD.rng.shuffle(done)
            done = done[:num_returns]
            return done, [r for r in refs if r not in done]
        with WORLD.cond:
            WORLD.cond.wait(0.005)


class ActorPool:
    """As ray.util.ActorPool."""

    def __init__(self, actors):
        self._idle = list(actors)
        self._futures = {}
        self._pending = []
        self._index_to_future = {}
        self._next_task = self._next_return = 0

    def submit(self, fn, value):
        if self._idle:
            a = self._idle.pop()
            f = fn(a, value)
            self._futures[f] = (self._next_task, a)
            self._index_to_future[self._next_task] = f
            self._next_task += 1
        else:
            self._pending.append((fn, value))

    def _return(self, actor):
        self._idle.append(actor)
        if self._pending:
            self.submit(*self._pending.pop(0))

    def has_next(self):
        return bool(self._futures)

    def get_next(self):
        while self._next_return not in self._index_to_future:
            done, _ = wait(list(self._futures), num_returns=1)
            self._finish(done[0])
        f = self._index_to_future[self._next_return]
        while not f._done.is_set():
            done, _ = wait([x for x in self._futures], num_returns=1)
            for d in done:
                if d is not f and d in self._futures:
                    self._free(d)
            if WORLD.stop:
                raise SystemExit
        del self._index_to_future[self._next_return]
        self._next_return += 1
        if f in self._futures:
            self._free(f)
        return f._get()

    def _free(self, f):
        _, a = self._futures.pop(f)
        self._return(a)

    def map(self, fn, values):
        for v in values:
            self.submit(fn, v)

        def gen():
            while self._futures or self._index_to_future:
                yield self.get_next()

        return gen()

    def map_unordered(self, fn, values):
        for v in values:
            self.submit(fn, v)

        def gen():
            while self._futures:
                done, _ = wait(list(self._futures), num_returns=1)
                f = done[0]
                i, _a = self._futures[f]
                self._index_to_future.pop(i, None)
                self._free(f)
                self._next_return = max(self._next_return, i + 1)
                yield f._get()

        return gen()


class PlacementGroup:
    def __init__(self, world, n):
        self.w, self.n = world, n
        self.lock = threading.Lock()
        self._ready = threading.Event()
        self.removed = False
        world.groups.add(self)
        world.spawn(self._start)

    def _start(self):
        try:
            self.w.acquire(self.n)
        except SystemExit:
            return
        if self.removed:
            self.w.release(self.n)
        self._ready.set()

    def ready(self):
        while not self._ready.wait(0.05):
            if self.w.stop:
                raise SystemExit

    def __deepcopy__(self, memo):
        return self


def placement_group(bundles, strategy="PACK", **_):
    return PlacementGroup(WORLD, sum(b.get("GPU", 0) for b in bundles))


def remove_placement_group(pg):
    pg.w.groups.discard(pg)
    if not pg.removed:
        pg.removed = True
        if pg._ready.is_set():
            pg.w.release(pg.n)


class PlacementGroupSchedulingStrategy:
    def __init__(self, placement_group=None, **_):
        self.placement_group = placement_group


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if "." in name:
        parent, leaf = name.rsplit(".", 1)
        setattr(sys.modules[parent], leaf, m)
    return m


def install():
    """Put the stand-ins where `import ray` and the others find them."""
    import importlib.machinery

    module("ray", remote=remote, get=get, wait=wait, ObjectRef=ObjectRef, init=lambda *a, **k: None, shutdown=lambda *a, **k: None,
           put=lambda v: v, is_initialized=lambda: True)
    module("ray.util", ActorPool=ActorPool, placement_group=placement_group, remove_placement_group=remove_placement_group)
    module("ray.util.queue", Queue=object)
    module("ray.util.scheduling_strategies", PlacementGroupSchedulingStrategy=PlacementGroupSchedulingStrategy)

    class LM:
        pass

    class HFLM(LM):
        def __init__(self, pretrained=None, **kw):
            self.model = pretrained
            self.kwargs = kw

    class VLLM(LM):
        pass

    class TaskManager:
        def __init__(self, include_path=None, **kw):
            self.include_path = include_path

    class Task:
        def download(self, *a, **k):
            pass

    class ConfigurableTask(Task):
        def download(self, *a, **k):
            pass

    module("lm_eval", simple_evaluate=simple_evaluate)
    module("lm_eval.api")
    module("lm_eval.api.model", LM=LM)
    module("lm_eval.api.task", Task=Task, ConfigurableTask=ConfigurableTask)
    module("lm_eval.models")
    module("lm_eval.models.huggingface", HFLM=HFLM)
    module("lm_eval.models.vllm_causallms", VLLM=VLLM)
    module("lm_eval.tasks", TaskManager=TaskManager)
    module("cma", fmin2=lambda *a, **k: WORLD.fmin2(*a, **k), CMAEvolutionStrategy=object)
    for n in ("ray", "lm_eval", "cma"):
        sys.modules[n].__spec__ = importlib.machinery.ModuleSpec(n, None)


def parameters(m):
    """All that the outputs of a model depend on."""
    return {n: p.detach().double().cpu().clone() for n, p in [*m.named_parameters(), *m.named_buffers()]}


def simple_evaluate(model, model_args=None, tasks=None, **kwargs):
    import torch
    import transformers

    w = WORLD
    if isinstance(model, str):
        m = transformers.AutoModelForCausalLM.from_pretrained(model_args["pretrained"], dtype=getattr(torch, model_args["dtype"]))
    else:
        m = model.model
    params = parameters(m)
    w.evals.append({"model": model if isinstance(model, str) else "object", "args": dict(model_args or {}), "tasks": list(tasks),
                    "kwargs": dict(kwargs), "dtypes": {str(p.dtype) for p in m.parameters()}})
    if w.raise_in_eval is not None and w.raise_in_eval(params):
        raise ConnectionError("evaluation failed")
    if len(set(tasks)) != len(tasks):
        raise ValueError("a task is listed twice")
    return {"results": {t: w.score(params, t) for t in tasks}}
