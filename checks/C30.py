"""C30: a model named by its Hub id and revision is the model with those files."""
import json
import os
import shutil

import safetensors.torch
import torch
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.models import config_json, dims, merge, state, write_tensors
from vp.recipes import RANDOM, config, difference, recipes, snapshot, write_input, write_inputs
from vp.toks import write_tokenizer

PROPERTY = "C30"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing, differential: generated merges, tokenizer transplants and adapter extractions whose inputs are fetched "
             "from a local stand-in Hub by id and revision, against the same run on plain directories, among decoy revisions")
ASSUMPTIONS = [
    "the Hub is a stand-in on the loopback network speaking the parts of its protocol that the installed client library uses",
    "private or gated repositories and remote code are not modelled",
]

REVS = ["main", "main", "dev", "v1.0", "sha"]


@st.composite
def homes(draw, n):
    """Where each input lives: a repository, the revision that holds it, what else is there."""
    out = []
    for i in range(n):
        out.append({"hub": draw(st.sampled_from([True, True, True, False])), "rev": draw(st.sampled_from(REVS)),
                    "decoys": draw(st.lists(st.sampled_from(["main", "dev", "v1.0", "old"]), max_size=2, unique=True)),
                    "one": draw(st.sampled_from([False, False, True])),
                    "jinja": draw(st.booleans()), "extra": draw(st.booleans()), "stray": draw(st.sampled_from([None, None, None, "adapter", "folder", "both"])), "form": draw(st.sampled_from(["str", "str", "dict"]))})
    if not any(h["hub"] for h in out):
        out[0]["hub"] = True
    return out


@st.composite
def merge_cases(draw):
    r = draw(recipes())
    if r["templates"] is None and draw(st.booleans()):
        r["templates"] = [draw(st.sampled_from(["{{ messages }} a", "{{ messages }} b", None])) for _ in range(r["n"])]
    share = draw(st.integers(0, 2)) == 0  # inputs are revisions of one repository
    return {"recipe": r, "homes": draw(homes(r["n"])), "share": share, "cache": draw(st.booleans()), "rseed": draw(st.integers(0, 2**31)),
            "tok_from": draw(st.sampled_from([None, None, 0, 1])), "copy": draw(st.sampled_from([True, True, False])),
            "lazy": draw(st.booleans()), "card": draw(st.booleans())}


def move_template(path):
    """Keep the chat template where current tokenizers save it."""
    p = os.path.join(path, "tokenizer_config.json")
    if not os.path.exists(p):
        return False
    with open(p) as f:
        c = json.load(f)
    t = c.pop("chat_template", None)
    if t is None:
        return False
    with open(p, "w") as f:
        json.dump(c, f)
    with open(os.path.join(path, "chat_template.jinja"), "w") as f:
        f.write(t)
    return True


def dress(path, h, fmt):
    """Files found in real repositories beside the weights."""
    junk = {"model.embed_tokens.weight": torch.zeros(2, 2)}
    if h["stray"] == "both" and fmt == "safetensors":
        torch.save(junk, os.path.join(path, "pytorch_model.bin"))
    elif h["stray"] == "adapter":
        safetensors.torch.save_file(junk, os.path.join(path, "extra_model.safetensors"))
    elif h["stray"] == "folder":
        os.makedirs(os.path.join(path, "onnx"), exist_ok=True)
        safetensors.torch.save_file(junk, os.path.join(path, "onnx", "model.safetensors"))
    if h["jinja"]:
        move_template(path)
    if h["extra"]:
        with open(os.path.join(path, "generation_config.json"), "w") as f:
            json.dump({"temperature": 0.5}, f)
        with open(os.path.join(path, "README.md"), "w") as f:
            f.write("# a model\n")
        with open(os.path.join(path, ".gitattributes"), "w") as f:
            f.write("*.bin filter=lfs\n")
        os.makedirs(os.path.join(path, "runs"), exist_ok=True)
        with open(os.path.join(path, "runs", "log.txt"), "w") as f:
            f.write("x")


def decoy(r, i, root, salt):
    """Another model of the same kind: other weights, vocabulary order and template."""
    d = dict(r, seed=r["seed"] + 7919 * (salt + 1))
    if r.get("templates"):
        d["templates"] = ["{{ messages }} decoy" for _ in r["templates"]]
    if r.get("tok"):
        d["tok"] = dict(r["tok"], vocabs=[list(reversed(v)) for v in r["tok"]["vocabs"]])
    os.makedirs(root)
    # nor need its weights be stored in the same way
    other = {"safetensors": "bin", "bin": "safetensors"}.get(r["fmt"])
    return write_input(d, root, i, fmt=other if (r["seed"] + salt) % 2 else None)


def place(hub, case, paths, root):
    """Register the inputs as repositories; the reference by which each is named."""
    from vp.hub import sha_of

    r = case["recipe"]
    repos, refs = {}, []
    for i, h in enumerate(case["homes"]):
        dress(paths[i], h, r["fmt"])
        if not h["hub"]:
            refs.append(paths[i])
            continue
        repo = "acme/all" if case["share"] else (f"m{i}" if h["one"] else f"acme/m{i}")
        revs = repos.setdefault(repo, {})
        rev = h["rev"] if h["rev"] != "sha" else f"b{i}"
        if rev in revs:
            rev = f"r{i}"
        revs[rev] = paths[i]
        for j, name in enumerate(h["decoys"]):
            if name not in revs:
                revs[name] = decoy(r, i, os.path.join(root, f"decoy{i}-{j}"), i * 4 + j)
        name = sha_of(paths[i]) if h["rev"] == "sha" else rev
        refs.append((repo, name, h["form"]))
    for repo, revs in repos.items():
        if "main" not in revs:
            # every repository has a default branch
            revs["main"] = decoy(r, 0, os.path.join(root, "main-" + repo.replace("/", "-")), 99)
        hub.put(repo, revs)
    out = []
    for x in refs:
        if isinstance(x, str):
            out.append(x)
            continue
        repo, name, form = x
        if name == "main":
            out.append(repo)
        elif form == "dict":
            out.append({"model": {"path": repo, "revision": name}})
        else:
            out.append(f"{repo}@{name}")
    return out


def text(path):
    """Content of a side file, less what the library notes about where it came from."""
    with open(path, encoding="utf-8", errors="replace") as f:
        s = f.read()
    if not path.endswith(".json"):
        return s
    c = json.loads(s)
    if isinstance(c, dict):
        for k in ("is_local", "local_files_only", "name_or_path", "_name_or_path"):
            c.pop(k, None)
    return c


def merges(case, ctx):
    from vp.hub import hub

    r = case["recipe"]
    root = ctx.tmp()
    paths = write_inputs(r, root)
    h = hub()
    h.reset(os.path.join(root, "hf-cache"))
    refs = place(h, case, paths, root)
    opts = {"copy_tokenizer": case["copy"], "lazy_unpickle": case["lazy"],
            "random_seed": case["rseed"] if r["method"]["name"] in RANDOM else None}

    def cfg_for(where):
        cfg = config(r, where)
        if cfg.get("tokenizer") and case["tok_from"] is not None:
            cfg["tokenizer"]["source"] = where[case["tok_from"]]
        return cfg

    a, b = os.path.join(root, "local"), os.path.join(root, "remote")
    try:
        merge(cfg_for(paths), a, **opts)
    except Exception as e:  # noqa: BLE001
        raise Rejected(f"does not merge locally either: {e}")
    if case["cache"]:
        opts["transformers_cache"] = os.path.join(root, "other-cache")
    cwd = os.getcwd()
    os.chdir(ctx.tmp())
    try:
        merge(cfg_for(refs), b, write_model_card=case["card"], **opts)
    finally:
        os.chdir(cwd)
    d = difference(snapshot(a), snapshot(b))
    require(d is None, "models fetched by id %s merge differently from the same files in a directory: %s", refs, d)
    skip = {"README.md", "mergekit_config.yml"}
    fa, fb = set(os.listdir(a)) - skip, set(os.listdir(b)) - skip
    require(fa == fb, "output of the fetched models has files %s, of the local ones %s", sorted(fb), sorted(fa))
    for fn in sorted(fa):
        if not fn.endswith((".safetensors", ".bin")):
            u, v = text(os.path.join(a, fn)), text(os.path.join(b, fn))
            require(u == v, "%s differs between fetched and local inputs: %s, %s", fn, str(u)[:600], str(v)[:600])
    ctx.label(r["method"]["name"], r["arch"], r["fmt"], "tokenizer" if r["tok"] else "copy" if case["copy"] else "no-tokenizer",
              "share" if case["share"] else "repos", *(x["rev"] for x in case["homes"] if x["hub"]))
    ctx.interesting(len([x for x in case["homes"] if x["hub"] and (x["decoys"] or x["rev"] != "main")]) >= 1)


# ---- adapters and the tools

@st.composite
def tool_cases(draw):
    c = {"tool": draw(st.sampled_from(["adapter", "adapter", "tokensurgeon", "extract"])), "seed": draw(st.integers(0, 10**6)),
         "revs": [draw(st.sampled_from(REVS)) for _ in range(3)], "hub": [draw(st.sampled_from([True, True, False])) for _ in range(3)],
         "decoy": [draw(st.booleans()) for _ in range(3)], "fmt": draw(st.sampled_from(["safetensors", "bin"])),
         "vocab": draw(st.lists(st.integers(0, 9), min_size=3, max_size=7, unique=True)),
         "vocab2": draw(st.lists(st.integers(0, 9), min_size=3, max_size=7, unique=True)), "r": draw(st.sampled_from([1, 2]))}
    if not any(c["hub"]):
        c["hub"][1] = True
    return c


D = {"hidden": 8, "inter": 6, "heads": 2, "kv": 1, "layers": 1}


def small(path, seed, toks, fmt="safetensors"):
    vocab = ["<unk>", "<s>", "</s>"] + [f"w{i}" for i in toks]
    d = dims(dict(D, vocab=len(vocab)))
    os.makedirs(path)
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(config_json("llama", d, "float32"), f)
    write_tensors(path, state("llama", d, seed), fmt, 1)
    write_tokenizer(path, vocab, [(t, i, True) for i, t in enumerate(vocab[:3])], bos_token="<s>", eos_token="</s>")
    return path


def small_adapter(path, host, seed, r):
    import peft
    import transformers

    m = transformers.AutoModelForCausalLM.from_pretrained(host, dtype=torch.float32)
    pm = peft.get_peft_model(m, peft.LoraConfig(r=r, lora_alpha=2, target_modules=["q_proj", "down_proj"], task_type="CAUSAL_LM"))
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for n, p in sorted(pm.named_parameters()):
            if "lora_" in n:
                p.copy_(torch.randn(p.shape, generator=g))
    pm.save_pretrained(path)


def tools(case, ctx):
    from mergekit.scripts import extract_lora, tokensurgeon
    from vp.hub import hub, sha_of

    root = ctx.tmp()
    h = hub()
    h.reset(os.path.join(root, "hf-cache"))
    p = lambda *a: os.path.join(root, *a)  # noqa: E731
    v2 = case["vocab2"] if case["tool"] == "tokensurgeon" else case["vocab"]
    dirs, decoys = [], []
    for salt, group in ((0, dirs), (5000, decoys)):
        group.append(small(p(f"m0-{salt}"), case["seed"] + salt, case["vocab"], case["fmt"]))
        group.append(small(p(f"m1-{salt}"), case["seed"] + salt + 1, v2[::-1] if salt else v2, "bin" if salt and case["seed"] % 2 else "safetensors"))
        if case["tool"] == "adapter":
            small_adapter(p(f"a-{salt}"), group[0], case["seed"] + salt + 2, case["r"])
            group.append(p(f"a-{salt}"))

    refs = []
    for i, d in enumerate(dirs):
        if not case["hub"][i]:
            refs.append(d)
            continue
        rev = case["revs"][i]
        name = rev if rev != "sha" else "b"
        revs = {name: d}
        if "main" not in revs:
            revs["main"] = decoys[i]
        elif case["decoy"][i]:
            revs["dev"] = decoys[i]
        h.put(f"acme/x{i}", revs)
        refs.append(f"acme/x{i}" + ("" if rev == "main" else "@" + (sha_of(d) if rev == "sha" else rev)))

    def go(where, out):
        cache = out + "-cache"
        os.makedirs(cache)
        if case["tool"] == "adapter":
            merge({"merge_method": "task_arithmetic", "base_model": where[1],
                   "models": [{"model": f"{where[0]}+{where[2]}", "parameters": {"weight": 0.5}}]}, out, lora_merge_cache=cache)
        elif case["tool"] == "tokensurgeon":
            tokensurgeon.main.main([where[0], where[1], out, "-k", "2", "--quiet"], standalone_mode=False)
        else:
            extract_lora.main.main(["--base-model", where[0], "--model", where[1], "--out-path", out, "--max-rank", "2"],
                                   standalone_mode=False)

    from mergekit.io.tasks import LoaderCache

    outs = []
    cwd = os.getcwd()
    os.chdir(ctx.tmp())
    try:
        for name, where in (("local", dirs), ("remote", refs)):
            LoaderCache().loaders.clear()
            try:
                go(where, p(name))
            except Exception as e:  # noqa: BLE001
                if name == "local":
                    raise Rejected(f"does not run locally either: {e}")
                raise
            outs.append(p(name))
    finally:
        os.chdir(cwd)
    fa, fb = (sorted(f for f in os.listdir(o) if f not in ("README.md", "mergekit_config.yml")) for o in outs)
    require(fa == fb, "%s on fetched models writes %s, on local ones %s", case["tool"], fb, fa)
    for fn in fa:
        if fn.endswith((".safetensors", ".bin")):
            x, y = (safetensors.torch.load_file(os.path.join(o, fn)) for o in outs)
            require(x.keys() == y.keys() and all(torch.equal(x[k], y[k]) for k in x), "%s: tensors of %s differ between fetched %s and "
                    "local inputs", case["tool"], fn, refs)
        elif fn == "adapter_config.json":
            x, y = (json.load(open(os.path.join(o, fn))) for o in outs)
            for c in (x, y):
                c.pop("base_model_name_or_path", None)
                c.pop("revision", None)
            require(x == y, "adapter settings differ: %s, %s", x, y)
        elif not fn.endswith(".md"):
            u, v = text(os.path.join(outs[0], fn)), text(os.path.join(outs[1], fn))
            require(u == v, "%s: %s differs between fetched and local inputs: %s, %s", case["tool"], fn, str(u)[:600], str(v)[:600])
    ctx.label(case["tool"], *(r for r, on in zip(case["revs"], case["hub"]) if on))
    ctx.interesting(any(on and r != "main" for r, on in zip(case["revs"], case["hub"])))


def prepare():
    import mergekit.scripts.extract_lora  # noqa: F401
    import mergekit.scripts.tokensurgeon  # noqa: F401
    import peft  # noqa: F401

    from vp.e2e import warm

    warm()


TESTS = [
    Test("merges", merge_cases, merges, quick=260, thorough=6000, shards=6, budget=110,
         rule="an input comes from a repository with another revision than the default or with decoy revisions"),
    Test("tools", tool_cases, tools, quick=70, thorough=1500, shards=2, budget=110,
         rule="an input is named by a revision other than the default"),
]
