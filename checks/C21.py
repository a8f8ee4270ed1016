"""C21: a model written as base plus adapter merges as the adapted model."""
import json
import os
import signal
import time

import torch
from hypothesis import strategies as st

from vp.core import Test, require
from vp.faults import Injector, injecting
from vp.gen import DTYPES, make, maxdiff, same
from vp.models import merge, read_config, read_model, seed_for, state, write_model
from vp.toks import write_tokenizer

PROPERTY = "C21"
LEVEL = "exploration"
TECHNIQUE = ("model-based property testing: generated histories of merges that share one adapter cache, with failures and kills at chosen I/O calls; "
             "every result compared bit for bit with the same merge of models the adapters were merged into beforehand by the adapter library")
ASSUMPTIONS = [
    "models and adapters at a path do not change between the merges of a history",
    "local directories; revisions of remote repositories are only checked to be kept apart in the cache",
]

D = {"hidden": 8, "inter": 12, "heads": 2, "kv": 1, "vocab": 10, "layers": 2}
# names of equal length and equal CRC-32, so that paths made from them collide in that checksum
PAIRS = [["gnyijstj", "etislvlf"], ["oyntrkpa", "pxjacgya"], ["ntrigsrd", "rkryiopt"], ["w0", "w1"]]
MODS = ["q_proj", "k_proj", "v_proj", "o_proj", "gate_proj", "up_proj", "down_proj", "embed_tokens", "lm_head"]


@st.composite
def adapters(draw):
    return {"targets": draw(st.lists(st.sampled_from(MODS), min_size=1, max_size=4, unique=True)), "r": draw(st.sampled_from([1, 2, 4])),
            "alpha": draw(st.sampled_from([1, 4, 8])), "rslora": draw(st.booleans()), "dora": draw(st.sampled_from([False, False, False, True])),
            "save": draw(st.lists(st.sampled_from(["input_layernorm", "lm_head"]), max_size=1)), "pattern": draw(st.booleans())}


@st.composite
def refs(draw):
    return {"w": draw(st.integers(0, 1)), "m": draw(st.integers(0, 1)), "a": draw(st.sampled_from([None, 0, 0, 1])),
            "form": draw(st.sampled_from(["str", "str", "dict", "rev"]))}


@st.composite
def steps(draw):
    method = draw(st.sampled_from(["linear", "linear", "task_arithmetic", "slerp", "passthrough", "ties"]))
    n = {"slerp": 2, "passthrough": 1}.get(method) or draw(st.integers(1, 3))
    return {"method": method, "refs": [draw(refs()) for _ in range(n)], "base": draw(refs()), "dtype": draw(st.sampled_from([None, None, "float16", "float32", "bfloat16"])),
            "relative": draw(st.booleans()), "w": draw(st.integers(0, 1)), "fault": draw(st.sampled_from([None, None, None, "enospc", "kill"])),
            "at": draw(st.integers(0, 14)), "again": draw(st.integers(0, 2)) == 0}


@st.composite
def histories(draw):
    return {"seed": draw(st.integers(0, 10**6)), "pair": draw(st.integers(0, len(PAIRS) - 1)), "dtype": draw(st.sampled_from(["float32", "float32", "bfloat16", "float16"])),
            "fmt": draw(st.sampled_from(["safetensors", "bin"])), "shards": draw(st.sampled_from([1, 3])), "tie": False,
            "arch": draw(st.sampled_from(["llama", "qwen2"])), "adapters": [draw(adapters()) for _ in range(draw(st.integers(1, 2)))],
            "steps": draw(st.lists(steps(), min_size=1, max_size=3))}


def write_adapter(path, case, spec, host_dir, seed):
    import peft
    import transformers

    model = transformers.AutoModelForCausalLM.from_pretrained(host_dir, dtype=torch.float32)
    targets = [t for t in spec["targets"] if t not in spec["save"]] or ["q_proj"]
    cfg = peft.LoraConfig(r=spec["r"], lora_alpha=spec["alpha"], target_modules=targets, use_rslora=spec["rslora"],
                          use_dora=spec["dora"] and "embed_tokens" not in targets, modules_to_save=spec["save"] or None, task_type="CAUSAL_LM",
                          rank_pattern={targets[0]: spec["r"] + 1} if spec["pattern"] else {})
    pm = peft.get_peft_model(model, cfg)
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for n, p in sorted(pm.named_parameters()):
            if "lora_" in n or "modules_to_save" in n:
                if "magnitude" in n:
                    p.mul_(1 + 0.1 * torch.rand(p.shape, generator=g))
                else:
                    p.copy_(torch.randn(p.shape, generator=g) * 0.3)
    pm.save_pretrained(path)


def premerge(base, adapter, dtype, out):
    import peft
    import transformers

    m = transformers.AutoModelForCausalLM.from_pretrained(base, dtype=DTYPES[dtype] if dtype else "auto")
    m = peft.PeftModel.from_pretrained(m, adapter).merge_and_unload()
    m.save_pretrained(out)


class Pauser(Injector):
    def hit(self, what, path):
        if self.n == self.fail_at:
            os.write(self.out, b"p")
            os.read(self.inp, 1)
        self.n += 1


class Killer(Injector):
    def hit(self, what, path):
        if self.n == self.fail_at:
            os.kill(os.getpid(), signal.SIGKILL)
        self.n += 1


def snapshot(cache):
    res = {}
    for r, _d, fs in os.walk(cache):
        for f in fs:
            p = os.path.join(r, f)
            s = os.stat(p)
            res[os.path.relpath(p, cache)] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return res


def history(case, ctx):
    root = ctx.tmp()
    cache = os.path.join(root, "cache")
    worlds = [os.path.join(root, n) for n in PAIRS[case["pair"]]]
    k = 0
    for w in worlds:
        for i in range(2):
            k += 1
            p = os.path.join(w, f"m{i}")
            write_model(p, case["arch"], D, {n: (make(t.shape, seed_for(case["seed"] + k, n), "normal", torch.float32, 0.3) + (1 if "norm" in n else 0)).to(t.dtype)
                                            for n, t in state(case["arch"], D, 1, "normal", case["dtype"]).items()}, dtype=case["dtype"], fmt=case["fmt"], shards=case["shards"])
            write_tokenizer(p, [f"t{j}" for j in range(10)])
            with open(os.path.join(p, "generation_config.json"), "w") as f:
                json.dump({"bos_token_id": k}, f)
        for i, spec in enumerate(case["adapters"]):
            k += 1
            write_adapter(os.path.join(w, f"a{i}"), case, spec, os.path.join(w, "m0"), case["seed"] + k)
    merged = {}
    used = set()
    here = os.getcwd()
    faulted = shared = 0
    prev = None
    for si, step in enumerate(case["steps"]):
        if step["again"] and prev:  # the same models for another merge
            step = {**step, **{x: prev[x] for x in ("refs", "base", "dtype", "relative", "w")}}
        prev = step
        rel = step["relative"]
        wd = worlds[step["w"]]

        def resolve(r):
            w = step["w"] if rel else r["w"]
            a = r["a"] if r["a"] is not None and r["a"] < len(case["adapters"]) else None
            m = os.path.join(worlds[w], f"m{r['m']}")
            name = f"m{r['m']}" if rel else m
            if a is None:
                return name, m, None
            an = f"a{a}" if rel else os.path.join(worlds[w], f"a{a}")
            ad = os.path.join(worlds[w], f"a{a}")
            if r["form"] == "dict":
                text = {"model": {"path": name}, "lora": {"path": an}}
            elif r["form"] == "rev":
                text = f"{name}@main+{an}"
            else:
                text = f"{name}+{an}"
            key = (m, ad, step["dtype"])
            if key not in merged:
                merged[key] = os.path.join(root, f"pre{len(merged)}")
                premerge(m, ad, step["dtype"], merged[key])
                write_tokenizer(merged[key], [f"t{j}" for j in range(10)])
            return text, merged[key], (m, ad, r["form"] == "rev", step["dtype"])

        rs, uniq = [], set()
        for r in step["refs"]:
            x = resolve(r)
            if x[1] not in uniq:  # the same model twice is something else
                uniq.add(x[1])
                rs.append(x)
        base = resolve(step["base"])
        method = step["method"]
        if method == "passthrough":
            rs = rs[:1]
        if method == "slerp":
            if len(rs) < 2:
                continue
            rs = rs[:2]
            base = rs[0]

        def cfg(pick):
            models = [{"model": x[pick], "parameters": {"weight": 0.5 + 0.25 * i}} for i, x in enumerate(rs)]
            c = {"merge_method": method, "models": models}
            if method in ("task_arithmetic", "ties", "slerp"):
                c["base_model"] = base[pick]
            if method == "slerp":
                c["parameters"] = {"t": 0.3}
            if method == "ties":
                for m in models:
                    m["parameters"]["density"] = 0.6
            return c

        out = os.path.join(root, f"out{si}")
        opts = {"copy_tokenizer": True, "lora_merge_cache": cache, "lora_merge_dtype": step["dtype"]}
        before = snapshot(cache)
        combos = {x[2] for x in rs + ([base] if method in ("task_arithmetic", "ties", "slerp") else []) if x[2]}
        if rel:
            os.chdir(wd)
        try:
            if step["fault"] == "enospc":
                inj = Injector(cache, fail_at=step["at"], persistent=bool(step["at"] % 2), kind="enospc")
                try:
                    with injecting(inj):
                        merge(cfg(0), os.path.join(root, f"fail{si}"), **opts)
                except Exception:  # noqa: BLE001
                    pass
                faulted += bool(inj.fired)
            elif step["fault"] == "kill":
                pid = os.fork()
                if pid == 0:
                    try:
                        with injecting(Killer(cache, fail_at=step["at"])):
                            merge(cfg(0), os.path.join(root, f"fail{si}"), **opts)
                    finally:
                        os._exit(0)
                end = time.time() + 60
                while True:
                    p, status = os.waitpid(pid, os.WNOHANG)
                    if p:
                        break
                    if time.time() > end:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        return
                    time.sleep(0.002)
                faulted += os.WIFSIGNALED(status)
            mid = snapshot(cache)
            merge(cfg(0), out, **opts)
        finally:
            os.chdir(here)
        after = snapshot(cache)
        for f, v in before.items():
            require(after.get(f) == v, "step %d rewrote %s in the cache", si, f)
        if combos and not step["fault"] and combos <= used:
            require(after == mid, "step %d uses only adapters merged before, but added %s to the cache", si, sorted(set(after) - set(mid))[:3])
            ctx.label("cached")
            shared += 1
        used |= combos
        want = os.path.join(root, f"want{si}")
        merge(cfg(1), want)
        a, b = read_model(out), read_model(want)
        require(set(a) == set(b), "step %d: tensors differ from those of the merge of adapted models: %s", si, sorted(set(a) ^ set(b))[:4])
        for n in b:
            require(same(a[n], b[n]), "step %d: %s is not that of the merge of adapted models, off by %s", si, n, maxdiff(a[n], b[n]))
        ca, cb = read_config(out), read_config(want)
        for kk in ("hidden_size", "vocab_size", "num_hidden_layers", "dtype", "architectures"):
            if not (kk == "dtype" and step["dtype"]):  # the configuration read is that of the unadapted model
                require(ca.get(kk) == cb.get(kk), "step %d: config %s is %s, %s for adapted models", si, kk, ca.get(kk), cb.get(kk))
        if not os.path.exists(os.path.join(out, "tokenizer.json")):
            require(False, "step %d: the tokenizer of a model given with an adapter is not copied", si)
        if combos:
            ctx.label("adapted", method)
    if faulted:
        ctx.label("faulted")
    if len({c[:2] for c in used}) > 1:
        ctx.label("several_adapted")
    ctx.interesting(bool(used))


@st.composite
def meetings(draw):
    c = {"seed": draw(st.integers(0, 10**6)), "pair": 3, "dtype": "float32", "fmt": draw(st.sampled_from(["safetensors", "bin"])), "shards": draw(st.sampled_from([1, 3])),
         "tie": False, "arch": draw(st.sampled_from(["llama", "qwen2"])), "adapter": draw(adapters()), "at": draw(st.integers(0, 14)),
         "lora_dtype": draw(st.sampled_from([None, None, "bfloat16"])), "same_out": False, "times": draw(st.integers(1, 2))}
    return c


def together(case, ctx):
    """Another merge with the same adapter runs while one is stopped between two I/O calls."""
    root = ctx.tmp()
    cache, model, ad = (os.path.join(root, n) for n in ("cache", "m", "a"))
    write_model(model, case["arch"], D, {n: (make(t.shape, seed_for(case["seed"], n), "normal", torch.float32, 0.3) + (1 if "norm" in n else 0)).to(t.dtype)
                                         for n, t in state(case["arch"], D, 1, "normal", case["dtype"]).items()}, dtype=case["dtype"], fmt=case["fmt"], shards=case["shards"])
    write_adapter(ad, case, case["adapter"], model, case["seed"] + 1)
    premerge(model, ad, case["lora_dtype"], os.path.join(root, "pre"))
    opts = {"copy_tokenizer": False, "lora_merge_cache": cache, "lora_merge_dtype": case["lora_dtype"]}

    def cfg(path):
        return {"merge_method": "linear", "models": [{"model": path, "parameters": {"weight": 1.0}}]}

    (r1, w1), (r2, w2) = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r1)
            os.close(w2)
            inj = Pauser(cache, fail_at=case["at"])
            inj.out, inj.inp = w1, r2
            try:
                with injecting(inj):
                    merge(cfg(f"{model}+{ad}"), os.path.join(root, "first"), **opts)
                code = 0
            except BaseException as e:  # noqa: BLE001
                with open(os.path.join(root, "error"), "w") as f:
                    f.write(f"{type(e).__name__}: {e}")
                code = 1
        finally:
            os._exit(code)
    os.close(w1)
    os.close(r2)
    try:
        paused = os.read(r1, 1) == b"p"  # or the end of the process
        for i in range(case["times"]):
            merge(cfg(f"{model}+{ad}"), os.path.join(root, f"second{i}"), **opts)
    finally:
        os.close(w2)
        end = time.time() + 60
        while not os.waitpid(pid, os.WNOHANG)[0]:
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                break
            time.sleep(0.002)
        os.close(r1)
    err = os.path.join(root, "error")
    require(not os.path.exists(err), "a merge fails when another one that uses the same adapter runs meanwhile: %s", open(err).read()[:300] if os.path.exists(err) else "")
    merge(cfg(os.path.join(root, "pre")), os.path.join(root, "want"))
    want = read_model(os.path.join(root, "want"))
    for n in ["first"] + [f"second{i}" for i in range(case["times"])]:
        a = read_model(os.path.join(root, n))
        require(set(a) == set(want) and all(same(a[k], want[k]) for k in want), "the %s of two merges at a time differs from that of the adapted model", n)
    left = sorted(os.listdir(cache))
    require(len(left) == 1, "the cache holds %s after two merges with one adapter", left)
    ctx.label("paused" if paused else "not reached")
    ctx.interesting(paused)


@st.composite
def pairs(draw):
    part = st.fixed_dictionaries({"p": st.sampled_from(["a", "b", "x/a", "y/a", "x/a@r", "a+b", "gnyijstj/a", "etislvlf/a", "a_b", "a_1"]),
                                  "r": st.sampled_from([None, None, "r", "main", "v1"])})
    one = st.fixed_dictionaries({"m": part, "l": part, "d": st.sampled_from([None, "float16", "float32"])})
    a = draw(one)
    b = draw(st.one_of(one, st.fixed_dictionaries({"m": st.just(a["m"]), "l": part, "d": st.just(a["d"])}),
                       st.fixed_dictionaries({"m": st.just(a["m"]), "l": st.just(a["l"]), "d": st.sampled_from([None, "float16", "float32"])})))
    return [a, b]


def keys(case, ctx):
    """Distinct combinations are put in distinct places (loading is replaced by a stand-in)."""
    from unittest import mock

    import peft
    import transformers

    import mergekit.common as common

    cache = ctx.tmp()
    runs = []

    class Model:
        def save_pretrained(self, path, **_):
            os.makedirs(path, exist_ok=True)
            runs.append(path)
            with open(os.path.join(path, "config.json"), "w") as f:
                json.dump(self.who, f)

    def load(path, *_, revision=None, torch_dtype=None, dtype=None, **_k):
        m = Model()
        m.who = [path, revision, str(torch_dtype or dtype)]
        return m

    def adapt(model, path, *_, revision=None, **_k):
        model.who = model.who + [path, revision]
        model.merge_and_unload = lambda *_a, **_k: model
        return model

    class Cfg:
        architectures = ["LlamaForCausalLM"]

    ref = common.ModelReference
    with mock.patch.object(transformers.AutoModelForCausalLM, "from_pretrained", load), mock.patch.object(peft.PeftModel, "from_pretrained", adapt), \
            mock.patch.object(transformers.AutoConfig, "from_pretrained", lambda *_a, **_k: Cfg()):
        got = []
        for c in case + case:
            r = ref(model={"path": c["m"]["p"], "revision": c["m"]["r"]}, lora={"path": c["l"]["p"], "revision": c["l"]["r"]})
            n = len(runs)
            p = r.merged(cache_dir=cache, lora_merge_dtype=c["d"]).model.path
            with open(os.path.join(p, "config.json")) as f:
                who = json.load(f)
            d = common.dtype_from_name(c["d"])
            require(who == [c["m"]["p"], c["m"]["r"], str(d), c["l"]["p"], c["l"]["r"]], "the result cached for %s is that of %s", c, who)
            got.append((c, len(runs) > n))
        require(not got[2][1] and not got[3][1], "a combination was merged again")
        require(got[0][1], "a fresh cache had a result")
    ctx.interesting(case[0] != case[1])


def prepare():
    import peft  # noqa: F401
    import transformers

    from vp.e2e import warm

    for x in ("AutoModelForCausalLM", "LlamaForCausalLM", "Qwen2ForCausalLM", "PreTrainedTokenizerFast"):
        getattr(transformers, x)
    warm()


TESTS = [
    Test("history", histories, history, quick=110, thorough=6000, shards=6, budget=100, rule="a merge used a model with an adapter"),
    Test("together", meetings, together, quick=80, thorough=3000, shards=4, budget=60, rule="one merge was stopped between two accesses to the cache while another ran"),
    Test("keys", pairs, keys, quick=600, thorough=30000, shards=1, budget=40, rule="the two combinations differ"),
]
