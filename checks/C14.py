"""C14: the result of a merge depends only on the recipe and the seed."""
import json
import os
import subprocess
import sys

import torch
import yaml
from hypothesis import strategies as st

from vp import zygote
from vp.boot import REPO, VERIF
from vp.core import Rejected, Test, require
from vp.models import merge
from vp.recipes import RANDOM, config, difference, recipes, snapshot, write_input, write_inputs

PROPERTY = "C14"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing, metamorphic: generated merge recipes run under pairs of option sets, after generated histories of "
             "other merges and input edits (against a pristine process), and under different hash seeds")
ASSUMPTIONS = [
    "methods that draw random numbers are compared under a fixed seed and the same way of storing the inputs",
    "adapter merges cached on disk are C21's subject; here no input has an adapter",
    "device options need a GPU and are not varied",
]

option_sets = st.fixed_dictionaries({
    "safe_serialization": st.booleans(),
    "out_shard_size": st.sampled_from([5 * 10**9, 1, 100, 300, 1000]),
    "lazy_unpickle": st.booleans(),
    "async_write": st.booleans(),
    "write_threads": st.sampled_from([1, 2, 5]),
    "clone_tensors": st.booleans(),
    "low_cpu_memory": st.booleans(),
    "read_to_gpu": st.booleans(),
    "write_model_card": st.booleans(),
    "copy_tokenizer": st.booleans(),
    "quiet": st.booleans(),
    "allow_crimes": st.booleans(),
    "trust_remote_code": st.booleans(),
})
DEFAULTS = {"safe_serialization": True, "out_shard_size": 5 * 10**9, "lazy_unpickle": False, "async_write": False, "write_threads": 1,
            "clone_tensors": False, "low_cpu_memory": False, "read_to_gpu": False, "write_model_card": True, "copy_tokenizer": True,
            "quiet": False, "allow_crimes": False, "trust_remote_code": False}


def changed(o):
    return [k for k in DEFAULTS if o[k] != DEFAULTS[k]]


def options(case, ctx):
    r, a, b = case["recipe"], case["a"], case["b"]
    root = ctx.tmp()
    paths = write_inputs(r, root)
    cfg = config(r, paths)
    random = r["method"]["name"] in RANDOM
    seed = case["rseed"] if random else None
    snaps = []
    for i, o in enumerate((a, b)):
        out = os.path.join(root, f"out{i}")
        torch.manual_seed(case["noise"] + i)  # what ran before must not matter
        merge(cfg, out, **o, random_seed=seed)
        snaps.append((snapshot(out, tokenizer=bool(r["tok"]) or (a["copy_tokenizer"] and b["copy_tokenizer"])), out))
        require(os.path.exists(os.path.join(out, "README.md")) == o["write_model_card"], "model card written: %s, asked: %s",
                not o["write_model_card"], o["write_model_card"])
    d = difference(snaps[0][0], snaps[1][0])
    require(d is None, "options %s and %s give different results: %s", {k: a[k] for k in a if a[k] != b[k]},
            {k: b[k] for k in a if a[k] != b[k]}, d)
    ctx.label(r["method"]["name"], r["arch"], "random" if random else "plain", *(k for k in a if a[k] != b[k]))
    ctx.interesting(sum(a[k] != b[k] for k in a) >= 2)


def option_cases():
    return st.fixed_dictionaries({"recipe": recipes(), "a": option_sets, "b": option_sets, "rseed": st.integers(0, 2**31),
                                  "noise": st.integers(0, 1000)})


# ---- histories

steps = st.lists(st.one_of(
    st.fixed_dictionaries({"do": st.just("merge"), "recipe": st.integers(0, 1), "out": st.integers(0, 2), "o": option_sets}),
    st.fixed_dictionaries({"do": st.just("merge"), "recipe": st.integers(0, 1), "out": st.integers(0, 2), "o": option_sets}),
    st.fixed_dictionaries({"do": st.just("edit"), "recipe": st.integers(0, 1), "model": st.integers(0, 2),
                           "seed": st.integers(0, 10**6), "fmt": st.sampled_from(["safetensors", "bin"]),
                           "shards": st.sampled_from([1, 2]), "dtype": st.sampled_from(["float32", "bfloat16"])}),
    st.fixed_dictionaries({"do": st.just("fail"), "recipe": st.integers(0, 1)}),
), min_size=2, max_size=6)


def pristine(cfg, out, opts, tok):
    merge(cfg, out, **opts)
    return snapshot(out, tokenizer=tok)


def history(case, ctx):
    zygote.start()
    root = ctx.tmp()
    rs = case["recipes"]
    paths = [write_inputs(r, os.path.join(root, f"r{i}")) for i, r in enumerate(rs)]
    merges = edits = 0
    for k, s in enumerate(list(case["steps"]) + [{"do": "merge", "recipe": 0, "out": 0, "o": DEFAULTS}]):
        r = rs[s["recipe"]]
        cfg = config(r, paths[s["recipe"]])
        if s["do"] == "edit":
            write_input(r, os.path.join(root, f"r{s['recipe']}"), s["model"] % r["n"], seed=s["seed"], fmt=s["fmt"],
                        shards=s["shards"], dtype=s["dtype"])
            edits += 1
            continue
        if s["do"] == "fail":
            # a merge that fails half way (a model without weights)
            bad = os.path.join(root, f"bad{k}")
            os.makedirs(bad)
            with open(os.path.join(paths[s["recipe"]][0], "config.json")) as f, open(os.path.join(bad, "config.json"), "w") as g:
                g.write(f.read())
            c = {"merge_method": "linear", "models": [{"model": p, "parameters": {"weight": 1.0}} for p in (paths[s["recipe"]][0], bad)]}
            try:
                merge(c, os.path.join(root, f"badout{k}"), fresh_cache=False)
            except Exception:  # noqa: BLE001
                ctx.label("failed_merge")
            continue
        out = os.path.join(root, f"out{s['out']}")
        o = dict(s["o"], random_seed=case["rseed"] if r["method"]["name"] in RANDOM else None)
        tok = bool(r["tok"])
        # the reference first: an output directory of its own, a process without a past
        ref = zygote.call(pristine, cfg, os.path.join(root, f"ref{k}"), o, tok)
        if ref[0] != "ok":
            raise Rejected(ref[1])
        import shutil

        shutil.rmtree(out, ignore_errors=True)
        merge(cfg, out, fresh_cache=False, **o)
        d = difference(ref[1], snapshot(out, tokenizer=tok))
        require(d is None, "step %d of %s: merging after other merges gives another result than in a new process: %s", k,
                [x["do"] for x in case["steps"]], d)
        merges += 1
    ctx.label(f"merges{min(merges, 4)}", "edited" if edits else "unedited")
    ctx.interesting(merges >= 2 and edits >= 1)


def histories():
    return st.fixed_dictionaries({"recipes": st.lists(recipes(), min_size=2, max_size=2), "steps": steps, "rseed": st.integers(0, 2**31)})


# ---- hash seeds

WORKER = r"""
import json, os, sys
real = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
sys.path.insert(0, sys.argv[1])
from vp.boot import boot
boot()
import logging, warnings
logging.disable(logging.CRITICAL); warnings.simplefilter("ignore")
import mergekit.merge
from vp.models import merge
from vp.recipes import snapshot
for line in sys.stdin:
    j = json.loads(line)
    pid = os.fork()
    if pid == 0:
        try:
            merge(j["cfg"], j["out"], **j["o"])
            res = snapshot(j["out"], tokenizer=j["tok"])
        except Exception as e:
            res = {"error": "%s: %s" % (type(e).__name__, str(e)[:300])}
        with open(j["out"] + ".res", "w") as f:
            json.dump(res, f)
        os._exit(0)
    os.waitpid(pid, 0)
    real.write("done\n"); real.flush()
"""
_SERVERS = {}


def merge_with_hash_seed(h, job):
    """Merge in a process with this hash seed, forked from one that has only imported the library."""
    key = (os.getpid(), h)
    if key not in _SERVERS:
        env = dict(os.environ, PYTHONHASHSEED=str(h), VERIF_REPO=REPO)
        _SERVERS[key] = subprocess.Popen([sys.executable, "-c", WORKER, VERIF], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                         stderr=subprocess.DEVNULL, text=True)
    p = _SERVERS[key]
    p.stdin.write(json.dumps(job) + "\n")
    p.stdin.flush()
    if p.stdout.readline().strip() != "done":
        raise RuntimeError(f"hash seed worker died: {p.poll()}")
    with open(job["out"] + ".res") as f:
        return json.load(f)


def hashseed(case, ctx):
    root = ctx.tmp()
    r = case["recipe"]
    paths = write_inputs(r, os.path.join(root, "in"))
    tok = bool(r["tok"]) or bool(r["templates"])
    x, y = [merge_with_hash_seed(h, {"cfg": config(r, paths), "out": os.path.join(root, f"out{h}"), "tok": tok,
                                     "o": {"random_seed": case["rseed"], "copy_tokenizer": True}}) for h in case["seeds"]]
    if "error" in x and "error" in y:
        raise Rejected(x["error"])
    d = difference(x, y)
    require(d is None, "hash seeds %s: %s of %s gives different results: %s", case["seeds"], r["method"]["name"], r["arch"], d)
    ctx.label(r["method"]["name"], r["arch"], "tokenizer" if r["tok"] else "no_tokenizer", "base" if r["base"] is not None else "no_base")
    ctx.interesting(r["base"] is None or r["tok"] or r["arch"] == "unknown" or r["method"]["name"] in RANDOM)


def hash_cases():
    return st.fixed_dictionaries({"recipe": recipes(), "seeds": st.sampled_from([[1, 2], [1, 3], [2, 3]]), "rseed": st.integers(0, 2**31)})


# ---- command line

FLAGS = {"safe_serialization": ("--safe-serialization", "--no-safe-serialization"), "lazy_unpickle": ("--lazy-unpickle", "--no-lazy-unpickle"),
         "async_write": ("--async-write", "--no-async-write"), "clone_tensors": ("--clone-tensors", "--no-clone-tensors"),
         "low_cpu_memory": ("--low-cpu-memory", "--no-low-cpu-memory"), "write_model_card": ("--write-model-card", "--no-write-model-card"),
         "copy_tokenizer": ("--copy-tokenizer", "--no-copy-tokenizer"), "allow_crimes": ("--allow-crimes", "--no-allow-crimes")}


def cli(case, ctx):
    from click.testing import CliRunner

    from mergekit.scripts.run_yaml import main

    r, o = case["recipe"], case["o"]
    root = ctx.tmp()
    paths = write_inputs(r, root)
    cfg = config(r, paths)
    seed = case["rseed"]
    api, out = os.path.join(root, "api"), os.path.join(root, "cli")
    merge(cfg, api, **o, random_seed=seed)
    fn = os.path.join(root, "recipe.yml")
    text = yaml.safe_dump(cfg) + "# a remark\n"
    with open(fn, "w") as f:
        f.write(text)
    from mergekit.io.tasks import LoaderCache

    LoaderCache().loaders.clear()
    args = [fn, out, "--random-seed", str(seed), "--out-shard-size", str(o["out_shard_size"]), "--write-threads", str(o["write_threads"])]
    args += [FLAGS[k][0 if o[k] else 1] for k in FLAGS]
    res = CliRunner().invoke(main, args)
    if res.exception and not isinstance(res.exception, SystemExit):
        raise res.exception
    require(res.exit_code == 0, "command line merge failed: %s", res.output[-300:])
    tok = bool(r["tok"]) or o["copy_tokenizer"]
    d = difference(snapshot(api, tokenizer=tok), snapshot(out, tokenizer=tok))
    require(d is None, "command line and library give different results for %s: %s", args[2:], d)
    names = [sorted(x for x in os.listdir(p)) for p in (api, out)]
    require(names[0] == names[1], "files written: %s by the library, %s by the command line", *names)
    if o["write_model_card"]:
        with open(os.path.join(out, "mergekit_config.yml")) as f:
            require(f.read() == text, "the recorded recipe is not the file that was given")
    ctx.label(r["method"]["name"], *changed(o))
    ctx.interesting(len(changed(o)) >= 2)


def cli_cases():
    return st.fixed_dictionaries({"recipe": recipes(), "o": option_sets.map(lambda o: dict(o, read_to_gpu=False, trust_remote_code=False, quiet=False)),
                                  "rseed": st.integers(0, 2**31 - 1)})


def prepare():
    # first use of the libraries, before the processes are forked (no merge is run)
    import mergekit.merge  # noqa: F401
    import transformers

    for n in ("AutoTokenizer", "AutoConfig", "LlamaConfig", "GPT2Config", "PreTrainedTokenizerFast"):
        getattr(transformers, n)


TESTS = [
    Test("history", histories, history, quick=120, thorough=4000, shards=3, budget=80,
         rule="at least two merges and an edit of the inputs in the history"),
    Test("options", option_cases, options, quick=320, thorough=9000, shards=3, budget=80, rule="two option sets differing in two or more options"),
    Test("hashseed", hash_cases, hashseed, quick=160, thorough=4000, shards=2, budget=80,
         rule="the recipe has no base model, a tokenizer, an unknown architecture or a random method"),
    Test("cli", cli_cases, cli, quick=60, thorough=2000, shards=1, budget=80, rule="two or more options differ from their defaults"),
]
