"""C29: what a merge records about itself is true and lets it be repeated."""
import json
import os
import re
import shlex
import sys

import torch
import yaml
from hypothesis import strategies as st

from vp.core import Rejected, Test, require
from vp.models import config_json, dims, merge, read_model, state, write_tensors
from vp.recipes import RANDOM, config, difference, recipes, snapshot, write_inputs
from vp.toks import write_tokenizer

PROPERTY = "C29"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated merges, adapter extractions and expert mixtures, whose cards and recorded configurations are "
             "parsed back and compared with what was asked for, and re-run (metamorphic: the recorded recipe gives the same model)")
ASSUMPTIONS = [
    "whether a name is that of a Hub repository is decided by a stand-in Hub on the loopback network, reachable or not",
    "the layout of a card is its front matter, a title, a sentence on the method, a list of models and a fenced block with the recipe or command",
]

# how an input is named: the directory is made relative to the working directory, or the model comes from the Hub
FORMS = ["abs", "abs", "rel0", "rel1", "rel1", "rel2", "dot", "hub", "hub", "hub0", "mirror"]


@st.composite
def cases(draw):
    r = draw(recipes())
    return {"recipe": r, "forms": [draw(st.sampled_from(FORMS)) for _ in range(r["n"])], "revs": [draw(st.sampled_from([None, None, "v1"])) for _ in range(r["n"])],
            "odd": draw(st.sampled_from(["m", "m", "123", "true", "1e3", "a-b.c_d"])), "down": draw(st.integers(0, 3)) == 0,
            "via": draw(st.sampled_from(["cli", "cli", "source", "config"])), "card": draw(st.sampled_from([True] * 5 + [False])),
            "out": draw(st.sampled_from(["out", "out", "out/", "deep/er/merge-1", "./x", "Ünï cødé", "a b"])),
            "style": draw(st.sampled_from(["dump", "flow", "comment", "braces"])), "rseed": draw(st.integers(0, 2**31)),
            "rerun": draw(st.integers(0, 2)) > 0, "copy": draw(st.booleans()), "earlier": draw(st.booleans())}


def source(cfg, style):
    s = yaml.safe_dump(cfg, allow_unicode=True, sort_keys=False, default_flow_style=True if style == "flow" else False)
    if style == "comment":
        return "# merge of — ünïcode — models\n" + s + "# end"
    if style == "braces":
        return s + "# {name} {0} %s {{metadata}}\n"
    return s


def split_card(text):
    """(front matter, body) of a card."""
    m = re.match(r"\A---\n(.*?)\n---\n(.*)\Z", text, re.S)
    require(m is not None, "the card has no front matter: %s", text[:200])
    try:
        meta = yaml.safe_load(m.group(1))
    except yaml.YAMLError as e:
        require(False, "front matter of the card is not YAML: %s", e)
    require(isinstance(meta, dict), "front matter is %s", meta)
    return meta, m.group(2)


def block(body, lang):
    m = re.search(r"^```%s\n(.*)\n```\s*\Z" % lang, body, re.S | re.M)
    require(m is not None, "the card has no %s block at its end: %s", lang, body[-300:])
    return m.group(1)


def shown(text):
    """The name a piece of card text stands for: plain, or the text of a link to it."""
    names = []
    for part in text.split(" + "):
        m = re.fullmatch(r"\[(.*)\]\((.*)\)", part)
        if m:
            require(m.group(2) == "https://huggingface.co/" + m.group(1), "link text %s, target %s", m.group(1), m.group(2))
            names.append((m.group(1), True))
        else:
            names.append((part, False))
    return tuple(names)


def place(case, paths, work, hub, down_later):
    """Names for the inputs as seen from the working directory; {name: it is a Hub id}."""
    names, is_hub = [], {}
    for i, (p, form, rev) in enumerate(zip(paths, case["forms"], case["revs"])):
        n = f"{case['odd']}{i}" if case["odd"] not in ("123", "1e3") else f"{case['odd']}{i}"
        if form == "abs":
            name = p
        elif form in ("hub", "hub0"):
            name = f"acme/{n}" if form == "hub" else f"solo-{n}"
            hub.put(name, {"main": p, "v1": p})
            is_hub[name] = True
            names.append(f"{name}@{rev}" if rev else name)
            continue
        else:
            name = {"rel0": f"dir-{n}", "rel1": f"models/{n}", "rel2": f"a/b/{n}", "dot": f"./{n}", "mirror": f"acme/local-{n}"}[form]
            dst = os.path.join(work, name)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            os.rename(p, dst)
            if form == "mirror":
                # a local copy of a repository, under the repository's name
                hub.put(name, {"main": dst})
                is_hub[name] = not down_later
                names.append(name)
                continue
        is_hub[name] = False
        names.append(name)
    return names, is_hub


def cards(case, ctx):
    from mergekit import merge_methods
    from mergekit.config import MergeConfiguration
    from vp.hub import hub

    r = case["recipe"]
    root, work = ctx.tmp(), ctx.tmp()
    h = hub()
    h.reset(os.path.join(root, "hf-cache"))
    paths = write_inputs(r, root)
    down = case["down"] and not any(f in ("hub", "hub0") for f in case["forms"])
    names, is_hub = place(case, paths, work, h, down)
    h.down = down
    cfg = config(r, names)
    text = source(cfg, case["style"])
    opts = {"random_seed": case["rseed"] if r["method"]["name"] in RANDOM else None, "copy_tokenizer": case["copy"]}
    cwd = os.getcwd()
    os.chdir(work)
    try:
        if case["earlier"]:
            # something else was written there before
            os.makedirs(case["out"], exist_ok=True)
            for fn in ("README.md", "mergekit_config.yml"):
                with open(os.path.join(case["out"], fn), "w") as f:
                    f.write("stale " * 5000)
        if case["via"] == "cli":
            from click.testing import CliRunner

            from mergekit.io.tasks import LoaderCache
            from mergekit.scripts.run_yaml import main

            with open("recipe.yml", "w", encoding="utf-8") as f:
                f.write(text)
            LoaderCache().loaders.clear()
            args = ["recipe.yml", case["out"], "--quiet"] + ([] if case["card"] else ["--no-write-model-card"])
            args += ["--copy-tokenizer" if case["copy"] else "--no-copy-tokenizer"]
            if opts["random_seed"] is not None:
                args += ["--random-seed", str(opts["random_seed"])]
            res = CliRunner().invoke(main, args, catch_exceptions=True)
            if res.exception is not None:
                raise res.exception
        else:
            from mergekit.io.tasks import LoaderCache
            from mergekit.merge import run_merge
            from mergekit.options import MergeOptions

            LoaderCache().loaders.clear()
            run_merge(MergeConfiguration.model_validate(yaml.safe_load(text)), case["out"],
                      options=MergeOptions(quiet=True, write_model_card=case["card"], **opts),
                      config_source=text if case["via"] == "source" else None)
        readme, rec = (os.path.join(case["out"], x) for x in ("README.md", "mergekit_config.yml"))
        if not case["card"]:
            if not case["earlier"]:
                require(not os.path.exists(readme), "a card was written although told not to")
            ctx.label("no-card")
            return
        with open(readme, encoding="utf-8", newline="") as f:
            card = f.read()
        with open(rec, encoding="utf-8", newline="") as f:
            recorded = f.read()
        if case["via"] != "config":
            require(recorded == text, "the recorded configuration is not the one given: %s", recorded[:500])
        meta, body = split_card(card)
        used = set(names)
        if r["method"]["name"] == "passthrough" and r["arch"] != "unknown":
            used = {names[i] for i, _ in r["slices"]}
        elif r["method"]["name"] == "passthrough":
            used = {names[r["order"][0]]}
        if r["base"] is not None:
            used.add(names[r["base"]])
        path = lambda n: n.split("@")[0]  # noqa: E731
        want = {path(n) for n in used if is_hub[path(n)]}
        got = meta.get("base_model")
        require(isinstance(got, list) and all(isinstance(x, str) for x in got), "base models in the front matter: %s", got)
        require(set(got) == want, "front matter lists %s, the recipe uses these Hub models: %s", got, sorted(want))
        require({"mergekit", "merge"} <= set(meta.get("tags") or []) and meta.get("library_name") == "transformers", "front matter is %s", meta)
        title = re.search(r"^# (.*)$", body, re.M).group(1)
        require(title == os.path.basename(os.path.abspath(case["out"])), "card of %s is titled %s", case["out"], title)
        fenced = block(body, "yaml")
        require(fenced == recorded, "card shows another configuration than recorded: %s", fenced[:400])
        # the method and the models
        m = merge_methods.get(r["method"]["name"])
        s = re.search(r"merged using the (.*) merge method(?: using (.*) as a base)?\.$", body, re.M)
        require(s is not None, "card does not name the method: %s", body[:600])
        require((m.pretty_name() or m.name()) in s.group(1), "card says method %s for %s", s.group(1), m.name())
        bullets = [shown(x) for x in re.findall(r"^\* (.*)$", body[: body.index("### Configuration")], re.M)]
        base = shown(s.group(2)) if s.group(2) else None
        if r["base"] is not None and m.name() != "slerp":
            require(base == ((path(names[r["base"]]), is_hub[path(names[r["base"]])]),), "card names %s as base of %s", base, names[r["base"]])
        elif r["base"] is None:
            require(base is None, "card names a base %s, there is none", base)
        listed = bullets + ([base] if base else [])
        expect = sorted(((path(n), is_hub[path(n)]),) for n in used)
        require(sorted(listed) == expect, "card lists %s, the recipe uses %s", listed, expect)
        ctx.label(case["via"], r["method"]["name"], "down" if down else "up", *{f for f in case["forms"]})
        ctx.interesting(len(used) >= 2 and len(set(case["forms"])) >= 2)
        if case["rerun"]:
            h.down = False
            before = snapshot(case["out"])
            rel = {k: v for k, v in opts.items()}
            merge(recorded, "again", **rel)
            d = difference(before, snapshot("again"))
            require(d is None, "the recorded configuration merges differently: %s", d)
            ctx.label("rerun")
    finally:
        h.down = False
        os.chdir(cwd)


# ---- adapter cards and recorded mixtures

D = {"hidden": 8, "inter": 6, "heads": 2, "kv": 1, "layers": 1}


@st.composite
def other_cases(draw):
    return {"tool": draw(st.sampled_from(["lora", "lora", "moe", "adapters"])), "adapters": draw(st.lists(st.tuples(st.integers(0, 1), st.booleans()), min_size=1, max_size=2)), "plain": draw(st.booleans()), "base": draw(st.integers(0, 1)), "seed": draw(st.integers(0, 10**6)), "hub": [draw(st.booleans()) for _ in range(2)],
            "rows": draw(st.sampled_from([7, 7, 9, 5])), "out": draw(st.sampled_from(["out", "my adapter/", "deep/er", "it's"])),
            "exclude": draw(st.lists(st.sampled_from(["q_proj|k_proj", "layers\\.0\\..*gate", "x y", "$HOME", "a'b", "*"]), max_size=2, unique=True)),
            "rank": draw(st.sampled_from([1, 2])), "card": draw(st.sampled_from([True] * 4 + [False])), "style": draw(st.sampled_from(["dump", "flow", "comment", "braces"])),
            "prog": draw(st.sampled_from(["mergekit-extract-lora", "/opt/my tools/mergekit-extract-lora"]))}


def build(path, seed, rows):
    d = dims(dict(D, vocab=rows))
    os.makedirs(path)
    with open(os.path.join(path, "config.json"), "w") as f:
        json.dump(config_json("llama", d, "float32"), f)
    write_tensors(path, state("llama", d, seed))
    write_tokenizer(path, ["<unk>", "<s>", "</s>"] + [f"w{i}" for i in range(rows - 3)])
    return path


def adapters(case, ctx, root, names, h):
    """A merge of models some of which have adapters applied, the base perhaps among them."""
    from checks.C30 import small_adapter

    used, hubs = [], dict(zip(names, case["hub"]))
    for j, (i, on_hub) in enumerate(case["adapters"]):
        p = os.path.join(root, f"adapter{j}")
        small_adapter(p, os.path.join(root, f"m{i}"), case["seed"] + j, case["rank"])
        if on_hub:
            h.put(f"acme/adapter{j}", {"main": p})
            p = f"acme/adapter{j}"
        hubs[p] = on_hub
        used.append((names[i], p))
    base = names[case["base"]]
    if case["plain"]:
        used.append((names[1 - case["base"]],))
    cfg = {"merge_method": "task_arithmetic", "base_model": base, "models": [{"model": "+".join(u), "parameters": {"weight": 0.5}} for u in used]}
    text = source(cfg, case["style"])
    outs = []
    for n in ("first", "again"):
        cache = os.path.join(root, n + "-cache")
        os.makedirs(cache)
        merge(yaml.safe_load(text), os.path.join(root, n), write_model_card=True, lora_merge_cache=cache)
        with open(os.path.join(root, n, "mergekit_config.yml"), encoding="utf-8", newline="") as f:
            text = f.read()
        outs.append(snapshot(os.path.join(root, n)))
    d = difference(*outs)
    require(d is None, "the recorded configuration merges differently: %s", d)
    with open(os.path.join(root, "first", "README.md"), encoding="utf-8") as f:
        meta, body = split_card(f.read())
    want = {x for u in [*used, (base,)] for x in u if hubs[x]}
    require(set(meta.get("base_model") or []) == want, "front matter lists %s, the recipe uses these Hub models: %s", meta.get("base_model"), sorted(want))
    s = re.search(r"merged using the (.*) merge method using (.*) as a base\.$", body, re.M)
    require(s is not None and shown(s.group(2)) == ((base, hubs[base]),), "card does not name %s as base: %s", base, body[:600])
    bullets = sorted(shown(x) for x in re.findall(r"^\* (.*)$", body[: body.index("### Configuration")], re.M))
    expect = sorted({tuple((x, hubs[x]) for x in u) for u in used})
    require(bullets == expect, "card lists %s, the recipe uses %s", bullets, expect)


def others(case, ctx):
    from mergekit.io.tasks import LoaderCache
    from mergekit.scripts import extract_lora, moe
    from vp.hub import hub

    root, work = ctx.tmp(), ctx.tmp()
    h = hub()
    h.reset(os.path.join(root, "hf-cache"))
    rows = [7, case["rows"] if case["tool"] == "lora" else 7]
    names = []
    for i in range(2):
        p = build(os.path.join(root, f"m{i}"), case["seed"] + i, rows[i])
        if case["hub"][i]:
            h.put(f"acme/m{i}", {"main": p})
            p = f"acme/m{i}"
        names.append(p)
    LoaderCache().loaders.clear()
    cwd, argv = os.getcwd(), sys.argv
    os.chdir(work)
    try:
        if case["tool"] == "adapters":
            adapters(case, ctx, root, names, h)
        elif case["tool"] == "moe":
            text = source({"base_model": names[0], "gate_mode": "random", "dtype": "float32",
                           "experts": [{"source_model": n, "positive_prompts": ["w0 — ü"]} for n in names]}, case["style"])
            with open("cfg.yml", "w", encoding="utf-8") as f:
                f.write(text)
            moe.main.main(["cfg.yml", case["out"]] + ([] if case["card"] else ["--no-write-model-card"]), standalone_mode=False)
            rec = os.path.join(case["out"], "mergekit_moe_config.yml")
            require(os.path.exists(rec) == case["card"], "configuration recorded: %s, asked: %s", not case["card"], case["card"])
            if case["card"]:
                with open(rec, encoding="utf-8", newline="") as f:
                    require(f.read() == text, "the recorded configuration is not the one given")
        else:
            args = ["--base-model", names[0], "--model", names[1], "--out-path", case["out"], "--max-rank", str(case["rank"])]
            for e in case["exclude"]:
                args += ["-e", e]
            if not case["card"]:
                args.append("--no-write-model-card")
            sys.argv = [case["prog"]] + args
            try:
                extract_lora.main.main(args, standalone_mode=False)
            except re.error:
                raise Rejected("not a regular expression")
            readme = os.path.join(case["out"], "README.md")
            require(os.path.exists(readme) == case["card"], "card written: %s, asked: %s", not case["card"], case["card"])
            if not case["card"]:
                ctx.label("no-card")
                return
            with open(readme, encoding="utf-8") as f:
                meta, body = split_card(f.read())
            require(set(meta.get("base_model") or []) == {n for n, on in zip(names, case["hub"]) if on}, "front matter lists %s of %s",
                    meta.get("base_model"), names)
            require({"mergekit", "peft"} <= set(meta.get("tags") or []) and meta.get("library_name") == "peft", "front matter is %s", meta)
            title = re.search(r"^# (.*)$", body, re.M).group(1)
            require(title == os.path.basename(os.path.abspath(case["out"])), "card of %s is titled %s", case["out"], title)
            s = re.search(r"extracted from (.*) and uses (.*) as a base\.$", body, re.M)
            require(s is not None, "card does not say what it was extracted from: %s", body[:500])
            got = [shown(s.group(2)), shown(s.group(1))]
            want = [((n, on),) for n, on in zip(names, case["hub"])]
            require(got == want, "card says base and model are %s, they are %s", got, want)
            cmd = block(body, "sh")
            require(shlex.split(cmd) == sys.argv, "the recorded command %s is not the one given: %s", cmd, sys.argv)
            note = re.search(r"^> .*\b(extended|reduced)\b.*?(\d+) to (\d+)\b.*resize_token_embeddings\((\d+)\)", body, re.M)
            if rows[0] == rows[1]:
                require(note is None and "resize_token_embeddings" not in body, "card warns of a change of vocabulary, there is none")
            else:
                require(note is not None, "card does not mention that the vocabulary went from %d to %d rows", *rows)
                require(note.groups() == ("extended" if rows[1] > rows[0] else "reduced", str(rows[0]), str(rows[1]), str(rows[1])),
                        "card reports the vocabulary change %s -> %s as %s", rows[0], rows[1], note.groups())
    finally:
        os.chdir(cwd)
        sys.argv = argv
    ctx.label(case["tool"], f"rows {case['rows']}")
    ctx.interesting(case["tool"] != "lora" or rows[0] != rows[1] or any(case["hub"]) or bool(case["exclude"]))


def prepare():
    import mergekit.scripts.extract_lora  # noqa: F401
    import mergekit.scripts.moe  # noqa: F401
    import mergekit.scripts.run_yaml  # noqa: F401

    from vp.e2e import warm

    warm()


TESTS = [
    Test("cards", cases, cards, quick=260, thorough=6000, shards=6, budget=110,
         rule="at least two models are used, named in at least two ways (paths of several shapes, Hub ids)"),
    Test("others", other_cases, others, quick=110, thorough=2000, shards=2, budget=110,
         rule="a mixture, or an adapter with a Hub model, a changed vocabulary or arguments that need quoting"),
]
