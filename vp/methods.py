"""Run one merge method on given tensors through mergekit's own task graph."""
import torch

_STORE = {}
_CLS = {}


def _const_cls():
    if "c" not in _CLS:
        from mergekit.graph import Task

        class ConstTensor(Task[torch.Tensor]):
            slot: int

            def arguments(self):
                return {}

            def execute(self, **_kw):
                return _STORE[self.slot]

        _CLS["c"] = ConstTensor
    return _CLS["c"]


def get_method(name):
    from mergekit import merge_methods

    return merge_methods.get(name)


def refs(n, prefix="m", variants=False):
    from mergekit.common import ModelReference

    if variants:  # one model with different adapters
        return [ModelReference.model_validate(prefix + (f"+l{i}" if i else "")) for i in range(n)]
    return [ModelReference.model_validate(f"{prefix}{i}") for i in range(n)]


def run_method(method, tensors, base=None, params=None, tparams=None, embed=False, optional=False, name="w", prefix="m"):
    """Output tensor of `method` for the listed tensors (in the listed order).

    base: index of the base model or None; params: global parameters (defaults
    are filled in from the method's own declaration, as the planner does);
    tparams: list of per-model parameter dicts."""
    from mergekit.architecture import WeightInfo
    from mergekit.common import ImmutableMap
    from mergekit.graph import Executor
    from mergekit.merge_methods.base import TensorDictWrapper

    m = get_method(method) if isinstance(method, str) else method
    ms = refs(len(tensors), prefix, sum(t.numel() for t in tensors if t is not None) % 3 == 0)
    params = dict(params or {})
    g = {}
    for p in m.parameters():
        if p.name in params:
            g[p.name] = params[p.name]
        elif p.required:
            raise ValueError(f"missing {p.name}")
        else:
            g[p.name] = p.default_value
    tp = {}
    for i, ref in enumerate(ms):
        mine = (tparams or [{}] * len(ms))[i]
        tp[ref] = ImmutableMap(data={p.name: mine.get(p.name, p.default_value) for p in m.tensor_parameters()})
    cls = _const_cls()
    _STORE.clear()
    inputs = {}
    for i, (ref, t) in enumerate(zip(ms, tensors)):
        if t is None:
            continue
        _STORE[i] = t
        inputs[ref] = cls(slot=i)
    try:
        task = m.make_task(
            output_weight=WeightInfo(name=name, is_embed=embed, optional=optional),
            tensors=TensorDictWrapper(tensors=ImmutableMap(data=inputs)),
            parameters=ImmutableMap(data=g),
            tensor_parameters=ImmutableMap(data=tp),
            base_model=ms[base] if base is not None else None,
        )
        for _t, v in Executor([task]).run(quiet=True):
            return v
    finally:
        _STORE.clear()
