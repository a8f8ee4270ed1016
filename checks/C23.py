"""C23: multi-stage merges run every stage once, in order, on the right inputs."""
import json
import os
import shutil
import signal
import time

import torch
import yaml
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.faults import Injector, injecting
from vp.gen import describe, same
from vp.models import merge, read_config, read_model, state, write_model
from vp.toks import read_vocab, template_of, write_tokenizer

PROPERTY = "C23"
LEVEL = "exploration"
TECHNIQUE = ("model-based property testing: generated dependency graphs of named merges and histories of complete, interrupted and partly deleted runs "
             "of the command line tool, compared with running the merges by hand in dependency order; generated malformed recipes must be rejected before anything runs")
ASSUMPTIONS = [
    "between the runs of a history only whole outputs or the files a model cannot do without are removed by others",
    "a stage killed after its output was complete may be run again",
]

D = {"hidden": 8, "inter": 12, "heads": 2, "kv": 1, "vocab": 10, "layers": 2}
NAMES = ["first", "second", "linear", "slerp", "ties", "float32", "union", "base", "m0", "a.b", "chain-1", "llama", "zero", "Ω"]
CHAT = "{{ 'a' + 'b' + messages }} @ {{ x @ y }} + linear"
WEIGHTS = ["model.safetensors", "pytorch_model.bin", "model.safetensors.index.json", "pytorch_model.bin.index.json"]


@st.composite
def docs(draw, lo=1, hi=4, models=2, cyclic=False):
    n = draw(st.integers(lo, hi))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    out = []
    for i in range(n):
        method = draw(st.sampled_from(["linear", "linear", "slerp", "task_arithmetic", "ties", "passthrough"]))
        k = {"slerp": 2, "passthrough": 2}.get(method) or draw(st.integers(1, 3))
        pool = models + (n if cyclic else i)
        # stages are preferred to plain models
        refs = [draw(st.integers(models if (pool > models and draw(st.integers(0, 2))) else 0, pool - 1)) for _ in range(k)]
        if method == "slerp" and refs[0] == refs[1]:
            refs[1] = (refs[0] + 1) % pool
        refs = list(dict.fromkeys(refs)) if method != "passthrough" else refs
        if method == "slerp" and len(refs) < 2:
            method = "linear"
        out.append({"name": names[i], "method": method, "refs": refs, "base": draw(st.sampled_from(refs)) if method == "slerp" else draw(st.integers(0, pool - 1)),
                    "form": draw(st.lists(st.sampled_from(["str", "str", "dict", "rev"]), min_size=4, max_size=4)),
                    "w": draw(st.lists(st.sampled_from([0.25, 0.5, 1.0]), min_size=3, max_size=3)),
                    "tok": draw(st.sampled_from([None, None, "union", "base", "ref", "tokens"])), "tokref": draw(st.sampled_from(refs)),
                    "chat": draw(st.integers(0, 3)) == 0, "dtype": draw(st.sampled_from([None, None, "float32", "bfloat16"])),
                    "modules": draw(st.booleans())})
    return out


@st.composite
def histories(draw):
    ds = draw(docs())
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["run", "run", "kill", "kill", "error", "delete"]))
        steps.append({"kind": kind, "lazy": draw(st.integers(0, 3)) > 0, "at": draw(st.integers(0, 24)), "which": draw(st.integers(0, len(ds) - 1)),
                      "what": draw(st.sampled_from(["all", "config", "weights"])), "order": draw(st.permutations(range(len(ds))))})
    return {"docs": ds, "seed": draw(st.integers(0, 10**6)), "steps": steps, "unnamed": draw(st.booleans()), "dir": draw(st.sampled_from(["inter", "in+ter@x", "some dir"])),
            "shard": draw(st.sampled_from([None, "200"])), "pickle": draw(st.integers(0, 3)) == 0, "relative": draw(st.booleans()), "own": int(draw(st.integers(0, 2)) == 0), "last": draw(st.permutations(range(len(ds))))}


def write_inputs(root, case, count=2):
    paths = []
    for i in range(count):
        p = os.path.join(root, f"m{i}")
        write_model(p, "llama", D, state("llama", D, case["seed"] + i), dtype="float32")
        write_tokenizer(p, [f"t{j}" for j in range(9)] + [f"own{i * case['own']}"], chat_template=["A {{ messages }}", "B {{ messages }}"][i])
        paths.append(p)
    return paths


def spell(path, form):
    if form == "dict" or (form != "str" and ("+" in path or "@" in path)):
        return {"model": {"path": path}}
    if "+" in path or "@" in path:
        return {"model": {"path": path}}
    return path + "@main" if form == "rev" else path


def config(doc, where, simple=False):
    """Recipe of one stage, with `where(i)` naming its i-th possible input."""
    def r(i):  # a model is recognized as the same one if it is written alike
        return spell(where(i), "dict" if simple else doc["form"][i % 4])

    c = {"merge_method": doc["method"]}
    if doc["method"] == "passthrough":
        body = {"slices": [{"sources": [{"model": r(x), "layer_range": [k, k + 1]}]} for k, x in enumerate(doc["refs"])]}
    else:
        body = {"models": [{"model": r(x), "parameters": {"weight": doc["w"][k]}} for k, x in enumerate(doc["refs"])]}
    c.update({"modules": {"default": body}} if doc["modules"] else body)
    if doc["method"] in ("slerp", "task_arithmetic", "ties"):
        c["base_model"] = r(doc["base"])
    if doc["method"] == "slerp":
        c["parameters"] = {"t": 0.4}
    if doc["method"] == "ties":
        c["parameters"] = {"density": 0.6}
    if doc["tok"] == "base" and "base_model" in c or doc["tok"] == "union":
        c["tokenizer_source"] = doc["tok"]
    elif doc["tok"] == "ref":
        # the words "base" and "union" mean something else there
        c["tokenizer_source"] = {"model": {"path": where(doc["tokref"])}} if where(doc["tokref"]) in ("base", "union") else r(doc["tokref"])
    elif doc["tok"] == "tokens":
        c["tokenizer"] = {"source": "union", "tokens": {"t3": {"source": r(doc["tokref"]), "force": True},
                                                       "t4": {"source": {"kind": "model_token", "model": r(doc["tokref"]), "token": "t5"}}}}
    if doc["chat"]:
        c["chat_template"] = CHAT
    if doc["dtype"]:
        c["dtype"] = doc["dtype"]
    return c


def invoke(args):
    from click.testing import CliRunner

    from mergekit.scripts.multimerge import main

    return CliRunner().invoke(main, args, catch_exceptions=True)


def failed(res):
    return res.exception is not None and not (isinstance(res.exception, SystemExit) and res.exception.code in (0, None))


def files(path):
    out = {}
    for r, _d, fs in os.walk(path):
        for f in fs:
            s = os.stat(os.path.join(r, f))
            out[os.path.relpath(os.path.join(r, f), path)] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return out


class Killer(Injector):
    def hit(self, what, path):
        if self.n == self.fail_at:
            os.kill(os.getpid(), signal.SIGKILL)
        self.n += 1


def fork_killed(args, roots, at):
    pid = os.fork()
    if pid == 0:
        try:
            with injecting(Killer(roots, fail_at=at)):
                invoke(args)
        finally:
            os._exit(0)
    end = time.time() + 90
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.WIFSIGNALED(status)
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise Rejected()
        time.sleep(0.002)


def compare(i, doc, got, want):
    a, b = read_model(got), read_model(want)
    require(set(a) == set(b), "stage %s has the wrong tensors: %s", doc["name"], sorted(set(a) ^ set(b))[:5])
    for k in b:
        require(same(a[k], b[k]), "stage %s: %s is %s, by hand it is %s", doc["name"], k, describe(a[k]), describe(b[k]))
    ca, cb = read_config(got), read_config(want)
    require(ca == cb, "stage %s: config differs from that made by hand: %s", doc["name"], {k: (ca.get(k), cb.get(k)) for k in set(ca) | set(cb) if ca.get(k) != cb.get(k)})
    require(os.path.exists(os.path.join(got, "tokenizer.json")), "stage %s has no tokenizer", doc["name"])
    require(read_vocab(got) == read_vocab(want), "stage %s: vocabulary differs from that made by hand", doc["name"])
    require(template_of(got) == template_of(want), "stage %s: chat template differs from that made by hand", doc["name"])


def history(case, ctx):
    root = ctx.tmp()
    ds = case["docs"]
    models = write_inputs(root, case)
    n = len(ds)
    used = {x - 2 for d in ds for x in d["refs"] + [d["base"], d["tokref"]] if x >= 2}
    final = max((i for i in range(n) if i not in used), default=None) if case["unnamed"] else None
    opts = {"copy_tokenizer": True, "write_model_card": False}
    flags = ["--quiet", "--no-write-model-card"]
    if case["shard"]:
        opts["out_shard_size"] = int(case["shard"])
        flags += ["--out-shard-size", case["shard"]]
    if case["pickle"]:
        opts["safe_serialization"] = False
        flags.append("--no-safe-serialization")
    # by hand, in dependency order
    hand = []
    for i, d in enumerate(ds):
        p = os.path.join(root, f"hand{i}")
        try:
            merge(config(d, lambda x: models[x] if x < 2 else hand[x - 2], simple=True), p, **opts)
        except Exception:  # noqa: BLE001 - say, vocabularies of different sizes and no tokenizer to align them
            raise Rejected()
        hand.append(p)
    here = os.getcwd()
    area = os.path.join(root, "area")
    os.makedirs(area)
    inter = os.path.join(area, case["dir"])
    dirs = [os.path.join(area, "final") if i == final else os.path.join(inter, d["name"]) for i, d in enumerate(ds)]

    def recipe(order):
        text = []
        for i in order:
            c = config(ds[i], lambda x: models[x] if x < 2 else ds[x - 2]["name"])
            if i != final:
                c["name"] = ds[i]["name"]
            text.append(yaml.safe_dump(c, allow_unicode=True, sort_keys=bool(i % 2)))
        p = os.path.join(root, "recipe.yml")
        with open(p, "w", encoding="utf-8") as f:
            f.write("---\n".join(text))
        a = [p, "-I", case["dir"] if case["relative"] else inter] + flags
        if final is not None:
            a += ["--out-path", "final" if case["relative"] else dirs[final]]
        return a

    deps = [{x - 2 for x in d["refs"] + ([d["base"]] if d["method"] in ("slerp", "task_arithmetic", "ties") else []) + ([d["tokref"]] if d["tok"] in ("ref", "tokens") else []) if x >= 2}
            for d in ds]
    done = set()
    steps = case["steps"] + [{"kind": "run", "lazy": True, "order": case["last"]}]
    reran = skipped = killed = 0
    os.chdir(area)
    try:
        for si, s in enumerate(steps):
            before = [files(d) for d in dirs]
            if s["kind"] == "delete":
                i = s["which"]
                if not os.path.isdir(dirs[i]):
                    continue
                if s["what"] == "all":
                    shutil.rmtree(dirs[i])
                else:
                    for f in (["config.json"] if s["what"] == "config" else WEIGHTS):
                        if os.path.exists(os.path.join(dirs[i], f)):
                            os.remove(os.path.join(dirs[i], f))
                done.discard(i)
                continue
            args = recipe(s["order"]) + ([] if s["lazy"] else ["--no-lazy"])
            if s["kind"] == "run":
                res = invoke(args)
                if failed(res):
                    require(False, "multi-stage merge failed: %s: %s", type(res.exception).__name__, str(res.exception)[:400] + (res.output or "")[-200:])
            elif s["kind"] == "kill":
                killed += fork_killed(args, area, s["at"])
            else:
                with injecting(Injector(area, fail_at=s["at"], kind="enospc")) as inj:
                    res = invoke(args)
                if any(x in os.path.basename(p) for _w, p in inj.fired for x in ("token", "chat_template", "vocab")):
                    return  # tokenizer copies are attempted, and reported, but not required to succeed
            after = [files(d) for d in dirs]
            weights = [[f for f in a if f.endswith((".safetensors", ".bin"))] for a in after]
            rewritten = {i for i in range(n) if any(before[i].get(f) != after[i][f] for f in weights[i])}
            if s["lazy"]:
                for i in sorted(done):
                    require(before[i] == after[i], "step %d: stage %s was complete, but its files changed", si, ds[i]["name"])
                skipped += len(done)
            if s["kind"] == "run":
                if not s["lazy"]:
                    require(rewritten == set(range(n)), "step %d: stages %s were not run although asked to run all", si,
                            sorted(ds[i]["name"] for i in set(range(n)) - rewritten))
                for i in range(n):
                    compare(i, ds[i], dirs[i], hand[i])
                reran += len(rewritten)
                done = set(range(n))
            else:
                # whatever was not written to is as complete as before; inputs of stages written to were complete before those began
                known = {i for i in done if before[i] == after[i]}
                for i in range(n):
                    if before[i] != after[i]:
                        known |= deps[i]
                for i in sorted(known):
                    compare(i, ds[i], dirs[i], hand[i])
                done = known
            extra = set(os.listdir(inter)) - {d["name"] for i, d in enumerate(ds) if i != final} if os.path.isdir(inter) else set()
            require(not extra, "step %d: unexpected outputs %s", si, sorted(extra))
    finally:
        os.chdir(here)
    ctx.label(*{d["method"] for d in ds}, f"stages={n}", *(["killed"] if killed else []), *(["skipped"] if skipped else []),
              *(["partly"] if 0 < reran < n * len(steps) else []))
    ctx.interesting(any(deps))


# ---------------------------------------------------------------- malformed recipes
@st.composite
def malformed(draw):
    kind = draw(st.sampled_from(["cycle", "cycle", "duplicate", "unnamed", "no-out"]))
    return {"kind": kind, "docs": draw(docs(lo=1, hi=4, cyclic=kind == "cycle")), "order": draw(st.permutations(range(4))), "seed": 1, "own": 0,
            "pick": draw(st.integers(0, 3)), "to": draw(st.integers(0, 3))}


def cyclic(ds):
    deps = {i: {x - 2 for x in used_refs(d) if x >= 2} for i, d in enumerate(ds)}
    left = set(deps)
    while True:
        free = {i for i in left if not deps[i] & left}
        if not free:
            return bool(left)
        left -= free


def used_refs(d):
    return (d["refs"] + ([d["base"]] if d["method"] in ("slerp", "task_arithmetic", "ties") else [])
            + ([d["tokref"]] if d["tok"] in ("ref", "tokens") else []))


def reject(case, ctx):
    root = ctx.tmp()
    ds = case["docs"]
    models = write_inputs(root, case)
    n = len(ds)
    recs = []
    for i, d in enumerate(ds):
        c = config(d, lambda x: models[x] if x < 2 else ds[x - 2]["name"])
        c["name"] = d["name"]
        recs.append(c)
    out = True
    if case["kind"] == "cycle":
        if not cyclic(ds):
            raise Rejected()
    elif case["kind"] == "duplicate":
        recs.append({**recs[case["pick"] % n]})
    elif case["kind"] == "unnamed":
        free = {k: v for k, v in config({**ds[0], "refs": [0, 1][:max(1, min(2, len(ds[0]["refs"])))], "base": 0, "tokref": 0}, lambda x: models[x]).items()}
        recs += [dict(free), dict(free)]
    else:
        free = config({**ds[0], "refs": [0, 1][:max(1, min(2, len(ds[0]["refs"])))], "base": 0, "tokref": 0}, lambda x: models[x])
        recs.append(free)
        out = False
    recs = [recs[i] for i in case["order"] if i < len(recs)] + recs[4:]
    p = os.path.join(root, "recipe.yml")
    with open(p, "w", encoding="utf-8") as f:
        f.write("---\n".join(yaml.safe_dump(r, allow_unicode=True) for r in recs))
    inter, final = os.path.join(root, "inter"), os.path.join(root, "final")
    res = invoke([p, "-I", inter, "--quiet"] + (["--out-path", final] if out else []))
    require(failed(res), "%s recipe was accepted", case["kind"])
    left = list(files(inter)) + list(files(final))
    require(not left and not os.path.exists(final), "something ran before the %s recipe was rejected: %s", case["kind"], left[:4])
    ctx.label(case["kind"])
    ctx.interesting(len(recs) > 1)


def prepare():
    import mergekit.scripts.multimerge  # noqa: F401

    torch.set_num_threads(1)


TESTS = [
    Test("history", histories, history, quick=350, thorough=5000, shards=7, budget=120, rule="at least one stage uses the output of another"),
    Test("reject", malformed, reject, quick=280, thorough=4000, shards=2, rule="several documents"),
]
assert json
