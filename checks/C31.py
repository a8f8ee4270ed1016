"""C31: an evolutionary search scores the models it says, and keeps the best."""
import math
import os
import shutil
import threading
import time

import numpy as np
import torch
import yaml
from hypothesis import strategies as st

from checks.C24 import definitions, genome, shape_of
from vp.core import Rejected, Test, require
from vp.models import config_json, dims, read_config, read_model, seed_for, state, write_tensors
from vp.toks import write_tokenizer

PROPERTY = "C31"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing, differential: generated populations, worker counts, timings and faults through every evaluation strategy "
             "and the whole command, with a stand-in scheduler, evaluator and optimizer, against merging and scoring each genotype by itself")
ASSUMPTIONS = [
    "ray, lm_eval and cma are not installed: vp/fakes.py models the behaviour of theirs that is relied on",
    "workers run one at a time, as processes sharing nothing, in an order drawn from the seed; vLLM and quantized evaluation are not modelled",
]

METHODS = ["linear", "task_arithmetic", "ties", "slerp"]
TASKS = ["alpha", "beta", "gamma_train", "delta"]
METRICS = ["acc,none", "acc_norm,none", "exact_match,strict"]
D = {"hidden": 8, "inter": 6, "heads": 2, "kv": 1, "vocab": 8}


@st.composite
def searches(draw):
    d = draw(definitions(max_layers=3).filter(lambda d: d["method"] in METHODS))
    d["gran"] = max(d["gran"], 0)
    d["tok"] = None
    return d


@st.composite
def task_lists(draw):
    names = draw(st.lists(st.sampled_from(TASKS), min_size=1, max_size=3, unique=True))
    out = [{"name": n, "metric": draw(st.sampled_from([None] + METRICS)), "weight": draw(st.sampled_from([None, None, 2.0, -0.5, 0.25]))} for n in names]
    if draw(st.integers(0, 3)) == 0:
        # one task may count with several metrics
        out.append({"name": names[0], "metric": "exact_match,strict", "weight": 0.5})
    return out


@st.composite
def genotypes(draw, d):
    k = math.prod(shape_of(d))
    v = st.sampled_from([0.25, 0.5, 0.75, 1.0, -0.5, 0.375, 1.25, 0.125])
    return draw(st.lists(v, min_size=k, max_size=k))


def fix(d, x):
    """Values that every method can merge with: weights of a nonzero sum, densities that keep something."""
    x = list(x)
    if d["method"] == "ties":
        x[1::2] = [max(abs(v), 0.5) for v in x[1::2]]
    if d["method"] == "linear":
        x = [abs(v) for v in x]
    return x


@st.composite
def common(draw):
    d = draw(searches())
    return {"d": d, "seed": draw(st.integers(0, 10**6)), "arch": draw(st.sampled_from(["llama", "llama", "qwen2", "gpt2"])), "tie": draw(st.sampled_from([False, False, True, True, "both"])),
            "in_dtype": draw(st.sampled_from(["float32", "bfloat16"])), "tasks": draw(task_lists()), "gpus": draw(st.integers(1, 3)), "order": draw(st.integers(0, 10**6)),
            "limit": draw(st.sampled_from([None, 5])), "fewshot": draw(st.sampled_from([None, 2])), "chat": draw(st.sampled_from([None, False])),
            "multi": draw(st.sampled_from([None, False])), "batch": draw(st.sampled_from([None, 4])), "kind": draw(st.sampled_from(["pool", "pool", "memory", "buffered", "serial"])),
            "tok": draw(st.booleans())}


@st.composite
def cases(draw):
    c = draw(common())
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        rounds.append([draw(genotypes(c["d"])) for _ in range(draw(st.integers(1, 4)))])
    c["rounds"] = rounds
    # (round, index, what goes wrong)
    c["fault"] = draw(st.sampled_from([None, None, "shape", "eval", "merge"]))
    c["at"] = [draw(st.integers(0, len(rounds) - 1)), draw(st.integers(0, 3))]
    return c


def write_inputs(case, root):
    d = case["d"]
    if case["tie"] == "both" and (d["gran"] or d["filters"] or d["smooth"]):
        # head and embeddings may come out different: what that means is up to the library that loads them
        case = dict(case, tie=True)
    tie = case["tie"] and case["arch"] != "gpt2"
    dm = dims(dict(D, layers=d["layers"]))
    paths = []
    for i in range(d["n"] + 1):
        p = os.path.join(root, f"in{i}")
        os.makedirs(p)
        sd = state(case["arch"], dm, case["seed"] + i, "normal", case["in_dtype"])
        if tie or case["arch"] == "gpt2":
            sd.pop("lm_head.weight", None)
            if case["tie"] == "both" and case["arch"] != "gpt2":
                # shared by the configuration, but stored twice all the same
                sd["lm_head.weight"] = sd["model.embed_tokens.weight"].clone()
        import json

        with open(os.path.join(p, "config.json"), "w") as f:
            json.dump(config_json(case["arch"], dm, case["in_dtype"], **({} if case["arch"] == "gpt2" else {"tie": bool(tie)})), f)
        write_tensors(p, sd)
        if case["tok"]:
            write_tokenizer(p, ["<unk>"] + [f"t{k}" for k in range(7)])
        paths.append(p)
    return paths


def measure(params, task):
    """Results a task gives a model with these parameters."""
    out = {}
    for m in METRICS:
        s = 0.0
        for n in sorted(params):
            g = torch.Generator().manual_seed(seed_for(7, f"{task}|{m}|{n}"))
            p = params[n]
            s += float((p * torch.randn(p.shape, generator=g, dtype=torch.float64)).sum()) / 16
        out[m] = s
        out[m.replace(",", "_stderr,")] = 0.01
    return out


def parameters(path):
    import transformers

    from vp.fakes import parameters as fakes_parameters

    m = transformers.AutoModelForCausalLM.from_pretrained(path, dtype=torch.bfloat16)
    return fakes_parameters(m)


def alone(g, x, options, root):
    """The parameters of the model a genotype stands for, merged by itself."""
    from mergekit.io.tasks import LoaderCache
    from mergekit.merge import run_merge

    cfg = g.genotype_merge_config(np.array(x))
    out = os.path.join(root, "alone")
    LoaderCache().loaders.clear()
    run_merge(cfg, out, options=options)
    try:
        return parameters(out)
    finally:
        shutil.rmtree(out)


def score(case, params):
    return sum((t["weight"] if t["weight"] is not None else 1.0) * measure(params, t["name"])[t["metric"] or "acc,none"] for t in case["tasks"])


def document(case, paths):
    d = case["d"]
    g = {"models": paths[:d["n"]], "merge_method": d["method"], "layer_granularity": d["gran"], "allow_negative_weights": d["negative"], "smooth": d["smooth"]}
    if d["base"] is not None:
        g["base_model"] = paths[d["base"]]
    if d["normalize"] is not None:
        g["normalize"] = d["normalize"]
    if d["filters"] is not None:
        g["filters"] = d["filters"]
    c = {"genome": g, "tasks": [t["name"] if t["metric"] is None and t["weight"] is None else {k: v for k, v in t.items() if v is not None} for t in case["tasks"]]}
    for k, n in (("limit", "limit"), ("fewshot", "num_fewshot"), ("chat", "apply_chat_template"), ("multi", "fewshot_as_multiturn")):
        if case[k] is not None:
            c[n] = case[k]
    return c


def bounded(fn, world, what, seconds=60):
    """Run fn, which must come to an end."""
    box = {}

    def run():
        try:
            box["value"] = fn()
        except BaseException as e:  # noqa: BLE001
            box["error"] = e

    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(seconds)
    if t.is_alive():
        world.close()
        t.join(5)
        require(False, "%s never ends", what)
    if "error" in box:
        raise box["error"]
    return box["value"]


def options(root):
    from mergekit.options import MergeOptions

    return MergeOptions(quiet=True, copy_tokenizer=True, random_seed=0, lora_merge_cache=os.path.join(root, "lora"))


def left(storage, patience=0):
    end = time.monotonic() + patience
    while patience and time.monotonic() < end and os.path.isdir(storage) and os.listdir(storage):
        time.sleep(0.02)
    return sorted(os.listdir(storage)) if os.path.isdir(storage) else []


def checked_evals(case, world, n_ok):
    for e in world.evals:
        require(sorted(e["tasks"]) == sorted({t["name"] for t in case["tasks"]}), "evaluated on %s, the tasks are %s", e["tasks"], case["tasks"])
        want = {"limit": case["limit"], "num_fewshot": case["fewshot"], "batch_size": case["batch"], "apply_chat_template": case["chat"] if case["chat"] is not None else True,
                "fewshot_as_multiturn": case["multi"] if case["multi"] is not None else True}
        for k, v in want.items():
            require(k in e["kwargs"] and e["kwargs"][k] == v, "evaluated with %s=%s, the setting is %s", k, e["kwargs"].get(k), v)
        require(e["dtypes"] == {"torch.bfloat16"}, "evaluated a model of type %s", e["dtypes"])


class MergeFailed(RuntimeError):
    pass


def strategies(case, ctx):
    from mergekit.evo import helpers, strategy
    from mergekit.evo.config import EvolMergeConfiguration
    from mergekit.io.tasks import LoaderCache
    from vp import fakes

    d, kind = case["d"], case["kind"]
    root = ctx.tmp()
    paths = write_inputs(case, root)
    opts = options(root)
    g = genome(d, paths)
    rounds = [[fix(d, x) for x in xs] for xs in case["rounds"]]
    ri, xi = case["at"]
    xi %= len(rounds[ri])
    wants = {}
    try:
        for xs in rounds:
            for x in xs:
                if tuple(x) not in wants:
                    wants[tuple(x)] = alone(g, x, opts, root)
    except Exception as e:  # noqa: BLE001
        raise Rejected(f"does not merge by itself either: {e}")
    scores = {x: score(case, p) for x, p in wants.items()}
    victim = wants[tuple(rounds[ri][xi])]
    w = fakes.World(gpus=case["gpus"], seed=case["order"])
    fakes.use(w)
    w.score = measure
    storage = os.path.join(root, "storage")
    cls = {"pool": strategy.ActorPoolEvaluationStrategy, "memory": strategy.ActorPoolEvaluationStrategy, "buffered": strategy.BufferedRayEvaluationStrategy,
           "serial": strategy.SerialEvaluationStrategy}[kind]
    fault = case["fault"]
    bad_key = tuple(rounds[ri][xi])
    real_merge = helpers.run_merge

    def failing_merge(cfg, out_path, options, **kw):
        if active["on"] and cfg == bad_cfg:
            with open(os.path.join(out_path, "partial.safetensors"), "wb") as f:
                f.write(b"x" * 100)
            raise MergeFailed("merge failed")
        return real_merge(cfg, out_path=out_path, options=options, **kw)

    active = {"on": False}
    bad_cfg = g.genotype_merge_config(np.array(bad_key)) if fault == "merge" else None
    if fault == "merge" and kind != "memory":
        helpers.run_merge = failing_merge
    LoaderCache().loaders.clear()
    n_ok = 0
    try:
        strat = cls(EvolMergeConfiguration.model_validate(document(case, paths)), g, opts, num_gpus=case["gpus"], batch_size=case["batch"], model_storage_path=storage,
                    **({"in_memory": True} if kind == "memory" else {}))
        for i, xs in enumerate(rounds):
            arrays = [np.array(x) for x in xs]
            hit = [fault is not None and tuple(x) == bad_key and i == ri for x in xs]
            active["on"] = i == ri
            w.raise_in_eval = None
            if i == ri and fault == "shape":
                hit = [j == xi for j in range(len(xs))]
                arrays[xi] = arrays[xi].reshape(1, 1, -1)
            elif i == ri and fault == "eval":
                w.raise_in_eval = lambda ps: ps.keys() == victim.keys() and all(torch.equal(ps[k], victim[k]) for k in ps)
                # genotypes that give the same model fail together
                hit = [all(torch.equal(wants[tuple(x)][k], victim[k]) for k in victim) for x in xs]
            elif i == ri and fault == "merge":
                hit = [kind != "memory" and g.genotype_merge_config(np.array(x)) == bad_cfg for x in xs]
            raises = fault in ("eval", "merge") and any(hit)
            try:
                if len(arrays) == 1 and case["order"] % 2:
                    got = [bounded(lambda: strat.evaluate_genotype(arrays[0]), w, f"evaluating a genotype with {kind}")]
                else:
                    got = bounded(lambda: strat.evaluate_genotypes(arrays), w, f"evaluating {len(arrays)} genotypes with {kind}, {case['gpus']} devices")
            except (ConnectionError, MergeFailed):
                require(raises, "an evaluation failed that was not meant to")
                if kind in ("pool", "memory"):
                    break
                ctx.label("failed")
                continue
            require(not raises, "a failed %s went unnoticed", fault)
            require(len(got) == len(xs), "%d genotypes have %d results", len(xs), len(got))
            for x, r, bad in zip(xs, got, hit):
                if fault == "shape" and bad:
                    require(r["score"] is None, "an impossible genotype scores %s", r["score"])
                    ctx.label("impossible")
                    continue
                n_ok += 1
                want = scores[tuple(x)]
                require(r["score"] is not None and abs(r["score"] - want) <= 1e-9 * max(1, abs(want)), "%s scores genotype %s as %s, its model scores %s", kind, x, r["score"], want)
                for t in case["tasks"]:
                    require(t["name"] in r["results"], "results of %s are missing", t["name"])
            require(w.peak <= case["gpus"], "%d devices in use, there are %d", w.peak, case["gpus"])
        if fault != "eval" and fault != "merge":
            checked_evals(case, w, n_ok)
            require(left(storage) == [], "merged models left behind: %s", left(storage))
            require(len(w.evals) == n_ok, "%d genotypes, %d evaluations", n_ok, len(w.evals))
        elif kind in ("serial", "buffered"):
            # the others of the population are still being evaluated
            after = left(storage, 20)
            require(after == [], "merged models left behind after a failure: %s", after)
    finally:
        w.close()
        helpers.run_merge = real_merge
    ctx.label(kind, d["method"], case["arch"], f"fault {fault}", f"{case['gpus']} devices", f"tie {case['tie']}")
    ctx.interesting(len(scores) >= 2)


# ---- the whole command

@st.composite
def runs(draw):
    c = draw(common())
    d = c["d"]
    pops = []
    for _ in range(draw(st.integers(1, 3))):
        pops.append([draw(genotypes(d)) for _ in range(draw(st.integers(1, 3)))])
    c.update(pops=pops, interrupt=draw(st.sampled_from([None, None, None, 1, 2])), reshard=draw(st.booleans()), save=draw(st.booleans()), random_init=draw(st.booleans()),
             naughty=draw(st.sampled_from([None] * 6 + ["refuse", "allow"])), both_bits=draw(st.sampled_from([False] * 9 + [True])),
             popsize=draw(st.sampled_from([None, 5])), fevals=draw(st.sampled_from([7, 100])), sigma=draw(st.sampled_from([None, 0.5])),
             crash=draw(st.sampled_from([None, None, None, 0, 1])), again=draw(st.sampled_from([False, False, True])))
    return c


BAD_TASKS = ["mmlu", "mmlu_stem", "gsm8k", "hellaswag", "winogrande", "arc_easy", "ai2_arc", "truthfulqa_mc2", "bigbench_x", "piqa", "openbookqa", "leaderboard_ifeval", "agieval_en",
             "hendrycks_math"]


class Result:
    pass


def command(case, ctx):
    import ray  # noqa: F401  (the stand-in)

    from mergekit.config import MergeConfiguration
    from mergekit.io.tasks import LoaderCache
    from mergekit.merge import run_merge
    from mergekit.scripts import evolve
    from vp import fakes

    d, kind = case["d"], case["kind"]
    root = ctx.tmp()
    paths = write_inputs(case, root)
    opts = options(root)
    g = genome(d, paths)
    pops = [[fix(d, x) for x in xs] for xs in case["pops"]]
    doc = document(case, paths)
    if case["random_init"]:
        doc["random_init"] = True
    if case["naughty"]:
        bad = BAD_TASKS[case["seed"] % len(BAD_TASKS)]
        doc["tasks"].append({"name": bad, "weight": 0.0})
    # inputs are brought to half precision first when they are stored again
    half = paths
    if case["reshard"] and case["in_dtype"] != "bfloat16":
        half = []
        for p in paths:
            q = p + "-half"
            shutil.copytree(p, q)
            write_tensors(q, {k: v.bfloat16() for k, v in read_model(p).items()})
            half.append(q)
    gh = genome(d, half)
    wants = {}
    try:
        for xs in pops:
            for x in xs:
                if tuple(x) not in wants:
                    wants[tuple(x)] = score(case, alone(gh, x, opts, root))
        x_all = [x for xs in pops for x in xs]
    except Exception as e:  # noqa: BLE001
        raise Rejected(f"does not merge by itself either: {e}")
    w = fakes.World(gpus=case["gpus"], seed=case["order"])
    fakes.use(w)
    w.score = measure
    storage = os.path.join(root, "store")
    log = {"fits": [], "seen": []}

    def fmin2(objective, x0=None, sigma0=None, options=None, callback=None, parallel_objective=None, **kw):
        log.update(x0=np.array(x0), sigma0=sigma0, options=dict(options or {}), objective=objective)
        es = Result()
        es.result = r = Result()
        r.fbest, r.xbest, r.evaluations = np.inf, None, 0
        for i, xs in enumerate(pops):
            if case["interrupt"] is not None and i >= case["interrupt"]:
                raise KeyboardInterrupt
            fit = list(parallel_objective([np.array(x) for x in xs]))
            log["fits"].append(fit)
            for x, f in zip(xs, fit):
                log["seen"].append(x)
                if f < r.fbest:
                    r.fbest, r.xbest = f, np.array(x)
            r.evaluations += len(xs)
            r.xfavorite, r.stds = np.array(xs[0]), np.ones(len(xs[0]))
            if callback is not None:
                callback(es)
        return r.xbest, es

    w.fmin2 = fmin2
    recipe = os.path.join(root, "evolve.yml")
    with open(recipe, "w") as f:
        yaml.safe_dump(doc, f)
    args = [recipe, "--storage-path", storage, "--no-merge-cuda", "--num-gpus", str(case["gpus"]), "--max-fevals", str(case["fevals"])]
    args += {"pool": ["--strategy", "pool"], "memory": ["--strategy", "pool", "--in-memory"], "buffered": ["-s", "buffered"], "serial": ["-s", "serial"]}[kind]
    args += ["--reshard" if case["reshard"] else "--no-reshard", "--save-final-model" if case["save"] else "--no-save-final-model"]
    if case["popsize"]:
        args += ["--force-population-size", str(case["popsize"])]
    if case["sigma"]:
        args += ["--sigma0", str(case["sigma"])]
    if case["batch"]:
        args += ["--batch-size", str(case["batch"])]
    if case["naughty"] == "allow":
        args.append("--i-understand-the-depths-of-the-evils-i-am-unleashing")
    if case["both_bits"]:
        args += ["--load-in-4bit", "--load-in-8bit"]
    sleep, evolve.time.sleep = evolve.time.sleep, (lambda s, real=evolve.time.sleep: real(min(s, 0.01)) if threading.current_thread().name == "vp-main" else real(s))

    def go():
        threading.current_thread().name = "vp-main"
        evolve.main.main(list(args), standalone_mode=False)

    refused = case["naughty"] == "refuse" or case["both_bits"]
    try:
        LoaderCache().loaders.clear()
        if case["crash"] is not None and case["reshard"] and not refused:
            # an earlier run is interrupted while storing an input
            interrupted(case, go, w)
            LoaderCache().loaders.clear()
        for again in range(2 if case["again"] and not refused else 1):
            log["fits"].clear(), log["seen"].clear()
            # each run has the devices to itself
            w.close()
            w = fakes.World(gpus=case["gpus"], seed=case["order"] + again)
            w.score, w.fmin2 = measure, fmin2
            fakes.use(w)
            try:
                bounded(go, w, f"mergekit-evolve with {kind}", 120)
            except ValueError:
                if not refused:
                    raise
                require(w.evals == [], "a refused search was run")
                ctx.label("refused")
                return
            require(not refused, "a search to be refused was run: %s", args)
    finally:
        evolve.time.sleep = sleep
        w.close()
    n = len(pops) if case["interrupt"] is None else min(case["interrupt"], len(pops))
    shape = shape_of(d)
    require(log["objective"] is None and log["x0"].size == math.prod(shape), "search starts from %s", log["x0"])
    if not case["random_init"]:
        require(np.array_equal(log["x0"], g.initial_genotype().reshape(-1).numpy()), "search starts from %s", log["x0"])
    require(log["options"].get("maxfevals") == case["fevals"] and log["options"].get("popsize") == case["popsize"], "search options are %s", log["options"])
    require(log["sigma0"] == (case["sigma"] or 1 / 6), "step size is %s", log["sigma0"])
    best, fbest = None, np.inf
    for xs, fit in zip(pops[:n], log["fits"]):
        require(len(fit) == len(xs), "%d costs for %d genotypes", len(fit), len(xs))
        for x, f in zip(xs, fit):
            want = -wants[tuple(x)]
            require(abs(f - want) <= 1e-9 * max(1, abs(want)), "genotype %s has cost %s, should be %s", x, f, want)
            if f < fbest:
                best, fbest = x, f
    require(len(log["fits"]) == n, "%d populations evaluated of %d", len(log["fits"]), n)
    require(left(os.path.join(storage, "merged")) == [], "merged models left behind: %s", left(os.path.join(storage, "merged")))
    cfg = os.path.join(storage, "best_config.yaml")
    require(os.path.exists(cfg), "no best configuration was written")
    with open(cfg) as f:
        stored = MergeConfiguration.model_validate(yaml.safe_load(f))
    # that of the best genotype, over the inputs or their stored copies
    out = os.path.join(root, "from-config")
    LoaderCache().loaders.clear()
    run_merge(stored, out, options=opts)
    require(abs(score(case, parameters(out)) + fbest) <= 1e-9 * max(1, abs(fbest)), "the stored best configuration scores %s, the best found %s", score(case, parameters(out)), -fbest)
    final = os.path.join(storage, "final_model")
    require(os.path.exists(final) == case["save"], "final model written: %s, asked: %s", not case["save"], case["save"])
    if case["save"]:
        ref = os.path.join(root, "final-ref")
        LoaderCache().loaders.clear()
        run_merge(g.genotype_merge_config(np.array(best)), ref, options=opts)
        a, b = read_model(final), read_model(ref)
        require(a.keys() == b.keys() and all(torch.equal(a[k], b[k]) for k in a), "the final model is not that of the best genotype")
        ca, cb = read_config(final), read_config(ref)
        require(ca == cb, "configuration of the final model is %s", ca)
        if case["tok"]:
            require(os.path.exists(os.path.join(final, "tokenizer.json")), "the final model has no tokenizer")
    checked_evals(case, w, None) if not case["naughty"] else None
    ctx.label(kind, d["method"], "reshard" if case["reshard"] else "in-place", "interrupted" if case["interrupt"] is not None and case["interrupt"] < len(pops) else "complete",
              "crash" if case["crash"] is not None and case["reshard"] else "no-crash")
    ctx.interesting(len({tuple(x) for x in x_all}) >= 2 and len(pops) >= 2)


def interrupted(case, go, w):
    import transformers

    real = transformers.PreTrainedModel.save_pretrained
    count = {"n": 0}

    def failing(self, path, *a, **k):
        if count["n"] == case["crash"]:
            os.makedirs(path, exist_ok=True)
            self.config.save_pretrained(path)
            raise OSError(28, "No space left on device")
        count["n"] += 1
        return real(self, path, *a, **k)

    transformers.PreTrainedModel.save_pretrained = failing
    try:
        bounded(go, w, "mergekit-evolve", 120)
    except OSError:
        return
    except BaseException as e:  # noqa: BLE001
        raise Rejected(f"another failure: {e}")
    finally:
        transformers.PreTrainedModel.save_pretrained = real


def prepare():
    from vp import fakes

    fakes.install()
    import mergekit.evo.strategy  # noqa: F401
    import mergekit.scripts.evolve  # noqa: F401

    from vp.e2e import warm

    warm()


TESTS = [
    Test("strategies", cases, strategies, quick=150, thorough=4000, shards=5, budget=110,
         rule="the genotypes of the case differ"),
    Test("command", runs, command, quick=70, thorough=2000, shards=3, budget=110,
         rule="two or more populations of differing genotypes"),
]
