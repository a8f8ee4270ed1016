"""A merge of tiny models through the main entry point, for comparing tensors with a reference."""
import os

from vp.models import EMBEDS, merge, read_model, state, write_model

D = {"hidden": 4, "inter": 6, "heads": 2, "kv": 1, "vocab": 7, "layers": 2}


def inputs(root, n, seed, kind="normal", dtype="float32", spread=None, arch="llama", d=D):
    """n models; with spread, models 1.. are model 0 plus a scaled random change."""
    paths, states = [], []
    first = None
    for i in range(n):
        sd = state(arch, d, seed + i, kind, dtype)
        if spread is not None and first is not None:
            sd = {k: (first[k].double() + spread * v.double()).to(v.dtype) for k, v in sd.items()}
        first = first or sd
        p = os.path.join(root, f"m{i}")
        write_model(p, arch, d, sd, dtype=dtype)
        paths.append(p)
        states.append(sd)
    return paths, states


def run(root, method, paths, base=None, params=None, tparams=None, order=None, listed_base=True, **top):
    """order: indices in the order they are listed; the base is left out of the list when listed_base is False."""
    order = list(range(len(paths))) if order is None else order
    models = []
    for i in order:
        if i == base and not listed_base:
            continue
        m = {"model": paths[i]}
        if tparams and tparams[i]:
            m["parameters"] = dict(tparams[i])
        models.append(m)
    cfg = {"merge_method": method, "models": models}
    if base is not None:
        cfg["base_model"] = paths[base]
    if params:
        cfg["parameters"] = dict(params)
    opts = top.pop("options", {})
    cfg.update(top)
    out = os.path.join(root, "out")
    merge(cfg, out, **opts)
    return read_model(out)


def warm():
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="vp-warm-")
    try:
        paths, _ = inputs(d, 2, 1)
        run(d, "linear", paths, tparams=[{"weight": 1.0}, {"weight": 1.0}])
    except Exception:  # noqa: BLE001
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)


__all__ = ["D", "EMBEDS", "inputs", "run", "warm"]
