"""Shared generators (as JSON-able specs) and builders for tensors."""
import math

import torch
from hypothesis import strategies as st

DTYPES = {
    "float32": torch.float32,
    "float16": torch.float16,
    "bfloat16": torch.bfloat16,
    "float64": torch.float64,
    "int64": torch.int64,
    "int32": torch.int32,
    "int16": torch.int16,
    "int8": torch.int8,
    "uint8": torch.uint8,
    "bool": torch.bool,
}

seeds = st.integers(min_value=0, max_value=2**31 - 1)


def rng(seed):
    g = torch.Generator()
    g.manual_seed(int(seed) & 0x7FFFFFFF)
    return g


KINDS = ["normal", "normal", "ints", "sparse", "wide", "ties", "tiny"]


def make(shape, seed, kind="normal", dtype=torch.float32, scale=1.0):
    """A deterministic tensor from a spec."""
    g = rng(seed)
    shape = tuple(shape)
    if kind == "zeros":
        x = torch.zeros(shape, dtype=torch.float64)
    elif kind == "ints":
        x = torch.randint(-4, 5, shape, generator=g).double()
    elif kind == "sparse":
        x = torch.randn(shape, generator=g, dtype=torch.float64)
        x = x * (torch.rand(shape, generator=g, dtype=torch.float64) < 0.3)
    elif kind == "wide":
        e = torch.randint(-6, 4, shape, generator=g).double()
        x = torch.randn(shape, generator=g, dtype=torch.float64) * (10.0**e)
    elif kind == "ties":
        x = torch.randint(-1, 2, shape, generator=g).double() * 0.5
    elif kind == "tiny":
        x = torch.randn(shape, generator=g, dtype=torch.float64) * 1e-4
    else:
        x = torch.randn(shape, generator=g, dtype=torch.float64)
    x = x * scale
    return x.to(dtype)


def bits(t):
    """Exact content of a tensor: dtype, shape, raw bytes."""
    t = t.detach().cpu()
    if t.numel() == 0:
        return (str(t.dtype), tuple(t.shape), b"")
    return (str(t.dtype), tuple(t.shape), torch.empty(t.numel(), dtype=t.dtype).copy_(t.reshape(-1)).view(torch.uint8).numpy().tobytes())


def same(a, b):
    return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and bits(a) == bits(b)


def describe(t):
    if not isinstance(t, torch.Tensor):
        return repr(t)[:200]
    v = t.detach().cpu().double().reshape(-1)[:8].tolist() if t.numel() else []
    return f"{str(t.dtype)[6:]}{tuple(t.shape)} {v}"


def close(a, b, rtol, atol):
    a = a.detach().double()
    b = b.detach().double()
    if a.shape != b.shape:
        return False
    if a.numel() == 0:
        return True
    return bool(((a - b).abs() <= atol + rtol * b.abs()).all())


def maxdiff(a, b):
    if a.shape != b.shape:
        return f"shape {tuple(a.shape)} vs {tuple(b.shape)}"
    if a.numel() == 0:
        return 0.0
    return float((a.double() - b.double()).abs().max())


def nbytes(t):
    return t.numel() * t.element_size()


def prod(xs):
    return math.prod(xs)


def shapes(min_dims=1, max_dims=3, max_side=8, min_side=1):
    return st.lists(st.integers(min_side, max_side), min_size=min_dims, max_size=max_dims)


unit = st.one_of(
    st.sampled_from([0.0, 0.1, 0.25, 1 / 3, 0.5, 0.75, 0.9, 1.0]),
    st.floats(0, 1, allow_nan=False, width=32),
)
