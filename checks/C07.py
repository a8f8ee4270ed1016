"""C07: configurations and model references survive being written out."""
import itertools
import json

import yaml
from hypothesis import strategies as st

from vp.core import Test, require

PROPERTY = "C07"
ASSUMPTIONS = [
    "revisions are non-empty; printing as a single string is promised only for parts free of the separators '+' and '@'",
    "parameter values are finite numbers",
]

PLAIN = st.one_of(
    st.sampled_from(["org/model", "a", "./rel/path", "/abs/dir/x", "C:\\models\\m", "123", "null", "yes", "1.5", "~", "- a",
                     "a: b", "{x}", "[1]", "#c", "x y", 'q"q', "it's", "é/模型", "union", "base", "a,b", "%s", "&a", "*a",
                     "!t", "true", "0x10", "1e3", "a\tb", "tail ", " lead", "2024-01-01", "a\\n", "..", "org/model-v1.0"]),
    st.text(st.characters(min_codepoint=33, max_codepoint=126, blacklist_characters="+@"), min_size=1, max_size=12),
)
TRICKY = st.one_of(PLAIN, PLAIN, PLAIN, st.sampled_from(["a+b", "a@b", "x+y@z", "@", "+", "a++b"]))
REV = st.none() | PLAIN


@st.composite
def refs(draw, tricky=True):
    part = TRICKY if tricky else PLAIN
    r = {"path": draw(part), "rev": draw(REV), "lora": None, "lrev": None, "arch": None}
    if draw(st.integers(0, 2)) == 0:
        r["lora"] = draw(part)
        r["lrev"] = draw(REV)
    if draw(st.integers(0, 5)) == 0:
        r["arch"] = draw(st.sampled_from(["LlamaForCausalLM", "X Y", ""]))
    return r


def ref_raw(r, form=0):
    """The reference as it would be typed into a configuration."""
    sep = any(c in (p or "") for p in (r["path"], r["rev"], r["lora"], r["lrev"]) for c in "+@")
    if r["arch"] is None and not sep and form == 0:
        s = r["path"] + (f"@{r['rev']}" if r["rev"] else "")
        if r["lora"] is not None:
            s += "+" + r["lora"] + (f"@{r['lrev']}" if r["lrev"] else "")
        return s
    d = {"model": {"path": r["path"], "revision": r["rev"]}}
    if r["lora"] is not None:
        d["lora"] = {"path": r["lora"], "revision": r["lrev"]}
    if r["arch"] is not None:
        d["override_architecture"] = r["arch"]
    return d


def parts(m):
    return {"path": m.model.path, "rev": m.model.revision, "lora": m.lora.path if m.lora else None,
            "lrev": m.lora.revision if m.lora else None, "arch": m.override_architecture}


@st.composite
def ref_cases(draw):
    return {"refs": draw(st.lists(refs(), min_size=1, max_size=4)), "form": draw(st.integers(0, 1))}


def references(case, ctx):
    from mergekit.common import ModelReference

    objs = []
    for r in case["refs"]:
        raw = ref_raw(r, case["form"])
        m = ModelReference.model_validate(raw)
        require(parts(m) == r, "%r was read as %r", raw, parts(m))
        sep = any(c in (p or "") for p in (r["path"], r["rev"], r["lora"], r["lrev"]) for c in "+@")
        ctx.label("structured" if isinstance(raw, dict) else "string")
        ctx.interesting(bool(r["rev"] or r["lora"] is not None or r["arch"]))
        for how, back in (
            ("json", lambda: ModelReference.model_validate_json(m.model_dump_json())),
            ("json object", lambda: ModelReference.model_validate(json.loads(json.dumps(m.model_dump(mode="json"))))),
            ("yaml", lambda: ModelReference.model_validate(yaml.safe_load(yaml.safe_dump(m.model_dump(mode="json"))))),
            ("python", lambda: ModelReference.model_validate(m.model_dump())),
            ("round_trip json", lambda: ModelReference.model_validate_json(
                m.model_dump_json(exclude_none=True, exclude_defaults=True, round_trip=True))),
        ):
            b = back()
            require(b == m and hash(b) == hash(m), "%r written as %s comes back as %r", parts(m), how, parts(b))
        if not sep and r["arch"] is None:
            require(ModelReference.parse(str(m)) == m, "%r prints as %r, which parses as %r", r, str(m),
                    parts(ModelReference.parse(str(m))))
            objs.append((r, m))
    for (r1, m1), (r2, m2) in itertools.combinations(objs, 2):
        require((r1 == r2) == (m1 == m2), "equality of %r and %r", r1, r2)
        require((r1 == r2) == (str(m1) == str(m2)), "distinct references both print as %s", m1)


BAD_REFS = ["a+b+c", "a@b@c", "@@", "a+b@c@d", "++", "a@x@y+l", "p@q+r@s+t", "a+l@x@y", "+++", "a@@b"]


@st.composite
def bad_ref_cases(draw):
    k = draw(st.sampled_from(["plus", "at", "listed"]))
    if k == "listed":
        return draw(st.sampled_from(BAD_REFS))
    xs = draw(st.lists(PLAIN, min_size=3, max_size=4))
    if k == "plus":
        return "+".join(xs)
    s = "@".join(xs)
    return s if draw(st.booleans()) else draw(PLAIN) + "+" + s


def bad_refs(case, ctx):
    from mergekit.common import ModelReference

    ctx.interesting()
    try:
        m = ModelReference.parse(case)
    except Exception:
        return
    require(False, "malformed reference %r was accepted as %r", case, parts(m))


# ---------------------------------------------------------------- configurations
NUM = st.one_of(st.sampled_from([0, 1, -1, 0.5, 1e-5, 1e22, 3, True, False, -0.0, 1e-300]),
                st.floats(-1e6, 1e6, allow_nan=False), st.integers(-1000, 1000))
GRAD = st.lists(NUM, min_size=1, max_size=5)
COND = st.fixed_dictionaries({"value": NUM | GRAD}, optional={"filter": st.sampled_from(["mlp", "*", "self_attn", "a: b", "é", "null", "1"])})
SETTING = st.one_of(NUM, GRAD, st.lists(COND, min_size=1, max_size=3), COND)
PARAMS = st.dictionaries(st.sampled_from(["weight", "density", "t", "lambda", "normalize", "x y", "1"]), SETTING, max_size=3)
TOKEN = st.sampled_from(["<pad>", "<|im_start|>", "a b", "null", "1", "\n", "é", "<s>", ": "])


@st.composite
def configs(draw):
    pool = draw(st.lists(refs(), min_size=1, max_size=4))
    ri = st.integers(0, len(pool) - 1)
    form = draw(st.integers(0, 1))

    def ref():
        return {"$ref": draw(ri)}

    def opt(d, key, strat):
        if draw(st.booleans()):
            d[key] = draw(strat) if hasattr(strat, "example") else strat()

    def models():
        out = []
        for _ in range(draw(st.integers(1, 3))):
            d = {"model": ref()}
            opt(d, "parameters", PARAMS)
            out.append(d)
        return out

    def slices():
        out = []
        for _ in range(draw(st.integers(1, 2))):
            srcs = []
            for _ in range(draw(st.integers(1, 2))):
                a = draw(st.integers(0, 20))
                d = {"model": ref(), "layer_range": [a, a + draw(st.integers(0, 20))]}
                opt(d, "parameters", PARAMS)
                srcs.append(d)
            s = {"sources": srcs}
            opt(s, "parameters", PARAMS)
            opt(s, "base_model", ref)
            opt(s, "residual_weight", st.sampled_from([0.5, 1.0]))
            out.append(s)
        return out

    c = {"merge_method": draw(st.sampled_from(["linear", "ties", "slerp", "some_custom"]))}
    style = draw(st.sampled_from(["models", "slices", "modules"]))
    if style == "models":
        c["models"] = models()
    elif style == "slices":
        c["slices"] = slices()
    else:
        c["modules"] = {}
        for name in draw(st.lists(st.sampled_from(["default", "text", "vision_tower", "1"]), min_size=1, max_size=2, unique=True)):
            m = {"models": models()} if draw(st.booleans()) else {"slices": slices()}
            opt(m, "parameters", PARAMS)
            c["modules"][name] = m
    opt(c, "base_model", ref)
    opt(c, "dtype", st.sampled_from(["bfloat16", "float16", "float32"]))
    opt(c, "out_dtype", st.sampled_from(["bfloat16", "float16", "float32"]))
    opt(c, "chat_template", st.sampled_from(["auto", "chatml", "{% for m in messages %}\n{{ m['content'] }}:  x\n{% endfor %}\n",
                                             "{{ a }}\t\"'# é \n\n"]))
    opt(c, "parameters", PARAMS)
    tk = draw(st.sampled_from(["none", "source", "config"]))

    def source():
        k = draw(st.sampled_from(["union", "base", "ref"]))
        return ref() if k == "ref" else k

    if tk == "source":
        c["tokenizer_source"] = source()
    elif tk == "config":
        t = {}
        if draw(st.booleans()):
            t["source"] = source()
        if draw(st.booleans()):
            t["pad_to_multiple_of"] = draw(st.integers(1, 64))
        if draw(st.booleans()):
            t["tokens"] = {}
            for tok in draw(st.lists(TOKEN, max_size=3, unique=True)):
                k = draw(st.sampled_from(["none", "zero", "ref", "id", "tok", "absent"]))
                e = {}
                if k == "none":
                    e["source"] = None
                elif k == "zero":
                    e["source"] = {"kind": "zero"}
                elif k == "ref":
                    e["source"] = ref()
                elif k == "id":
                    e["source"] = {"kind": "model_token", "model": ref(), "token_id": draw(st.integers(0, 9))}
                elif k == "tok":
                    e["source"] = {"kind": "model_token", "model": ref(), "token": draw(TOKEN)}
                if draw(st.booleans()):
                    e["force"] = draw(st.booleans())
                t["tokens"][tok] = e
        c["tokenizer"] = t
    return {"pool": pool, "form": form, "config": c}


def resolve(x, pool, form):
    if isinstance(x, dict):
        if set(x) == {"$ref"}:
            return ref_raw(pool[x["$ref"]], form)
        return {k: resolve(v, pool, form) for k, v in x.items()}
    if isinstance(x, list):
        return [resolve(v, pool, form) for v in x]
    return x


def num_setting(s):
    """Parameter setting as plain data, from raw form."""
    if isinstance(s, dict):
        return ("cond", s.get("filter"), num_setting(s["value"]))
    if isinstance(s, list):
        return [num_setting(x) for x in s]
    return float(s)


def got_setting(s):
    if hasattr(s, "value") and hasattr(s, "filter"):
        return ("cond", s.filter, got_setting(s.value))
    if isinstance(s, (list, tuple)):
        return [got_setting(x) for x in s]
    return float(s)


def meaning(raw, pool):
    """What the configuration says, from the raw case (reference)."""
    def ref(x):
        return None if x is None else tuple(sorted(pool[x["$ref"]].items(), key=lambda kv: kv[0]))

    def params(p):
        return {k: num_setting(v) for k, v in (p or {}).items()}

    def models(ms):
        return [(ref(m["model"]), params(m.get("parameters"))) for m in ms or []]

    def slices(ss):
        return [([(ref(s["model"]), tuple(s["layer_range"]), params(s.get("parameters"))) for s in sl["sources"]],
                 ref(sl.get("base_model")), params(sl.get("parameters"))) for sl in ss or []]

    def src(x):
        if isinstance(x, dict) and "$ref" in x:
            return ("ref", ref(x))
        return x

    tok = None
    if raw.get("tokenizer") is not None:
        t = raw["tokenizer"]
        toks = None
        if t.get("tokens") is not None:
            toks = {}
            for k, e in t["tokens"].items():
                s = e.get("source")
                if isinstance(s, dict) and s.get("kind") == "zero":
                    v = "zero"
                elif isinstance(s, dict) and "kind" in s:
                    v = ("token", ref(s["model"]), s.get("token_id"), s.get("token"))
                elif s is None:
                    v = None
                else:
                    v = ("ref", ref(s))
                toks[k] = (v, bool(e.get("force")))
        tok = (src(t.get("source", "union")), toks, t.get("pad_to_multiple_of"))
    return {
        "method": raw["merge_method"], "base": ref(raw.get("base_model")),
        "models": models(raw.get("models")), "slices": slices(raw.get("slices")),
        "modules": {k: (models(m.get("models")), slices(m.get("slices")), params(m.get("parameters")))
                    for k, m in (raw.get("modules") or {}).items()},
        "dtype": raw.get("dtype"), "out_dtype": raw.get("out_dtype"), "chat": raw.get("chat_template"),
        "params": params(raw.get("parameters")), "tokenizer_source": src(raw.get("tokenizer_source")), "tokenizer": tok,
    }


def meaning_obj(c):
    """The same, from a MergeConfiguration object."""
    from mergekit.common import ModelReference

    def ref(m):
        return None if m is None else tuple(sorted(parts(m).items(), key=lambda kv: kv[0]))

    def params(p):
        return {k: got_setting(v) for k, v in (p or {}).items()}

    def models(ms):
        return [(ref(m.model), params(m.parameters)) for m in ms or []]

    def slices(ss):
        return [([(ref(s.model), tuple(s.layer_range), params(s.parameters)) for s in sl.sources], ref(sl.base_model),
                 params(sl.parameters)) for sl in ss or []]

    def src(x):
        return ("ref", ref(x)) if isinstance(x, ModelReference) else x

    tok = None
    if c.tokenizer is not None:
        t = c.tokenizer
        toks = None
        if t.tokens is not None:
            toks = {}
            for k, e in t.tokens.items():
                s = e.source
                if s is None:
                    v = None
                elif isinstance(s, ModelReference):
                    v = ("ref", ref(s))
                elif s.kind == "zero":
                    v = "zero"
                else:
                    v = ("token", ref(s.model), s.token_id, s.token)
                toks[k] = (v, e.force)
        tok = (src(t.source), toks, t.pad_to_multiple_of)
    return {
        "method": c.merge_method, "base": ref(c.base_model), "models": models(c.models), "slices": slices(c.slices),
        "modules": {k: (models(m.models), slices(m.slices), params(m.parameters)) for k, m in (c.modules or {}).items()},
        "dtype": c.dtype, "out_dtype": c.out_dtype, "chat": c.chat_template, "params": params(c.parameters),
        "tokenizer_source": src(c.tokenizer_source), "tokenizer": tok,
    }


def diff(a, b):
    return {k: (a[k], b[k]) for k in a if a[k] != b[k]}


def roundtrip(case, ctx):
    from mergekit.config import MergeConfiguration

    raw = resolve(case["config"], case["pool"], case["form"])
    want = meaning(case["config"], case["pool"])
    # 'union' / 'base' as a tokenizer source always mean the keyword
    for r in case["pool"]:
        if ref_raw(r, case["form"]) in ("union", "base"):
            from vp.core import Rejected
            raise Rejected()
    text = yaml.safe_dump(raw)
    c = MergeConfiguration.model_validate(yaml.safe_load(text))
    got = meaning_obj(c)
    require(got == want, "configuration read wrongly: %s", str(diff(got, want))[:800])
    ctx.interesting(len(case["pool"]) > 1 or bool(want["params"]))
    out = c.to_yaml()
    for how, again in (
        ("to_yaml", lambda: MergeConfiguration.model_validate(yaml.safe_load(out))),
        ("json", lambda: MergeConfiguration.model_validate_json(c.model_dump_json())),
        ("exclude_none", lambda: MergeConfiguration.model_validate(
            yaml.safe_load(yaml.dump(c.model_dump(mode="json", exclude_none=True))))),
    ):
        c2 = again()
        require(meaning_obj(c2) == want, "written by %s the configuration changes meaning: %s", how,
                str(diff(meaning_obj(c2), want))[:800])
    require(c.to_yaml() == out, "writing a configuration changes it")
    # every model mentioned is reported once
    mentioned = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("model", "base_model") and isinstance(v, dict) and "$ref" in v:
                    mentioned.add(tuple(sorted(case["pool"][v["$ref"]].items())))
                else:
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    body = {k: v for k, v in case["config"].items() if k in ("models", "slices", "modules", "base_model")}
    for s in body.get("slices", []) or []:
        s = dict(s)
    walk(body)
    listed = [tuple(sorted(parts(m).items())) for m in c.referenced_models()]
    slice_bases = set()

    def walk_sb(x):
        if isinstance(x, dict):
            if "sources" in x and x.get("base_model"):
                slice_bases.add(tuple(sorted(case["pool"][x["base_model"]["$ref"]].items())))
            for v in x.values():
                walk_sb(v)
        elif isinstance(x, list):
            for v in x:
                walk_sb(v)

    walk_sb(body)
    require(len(listed) == len(set(listed)), "a model is listed twice")
    require(set(listed) <= mentioned and mentioned - set(listed) <= slice_bases, "models listed %s, mentioned %s", listed,
            mentioned)


@st.composite
def invalid(draw):
    base = {"merge_method": "linear"}
    m = [{"model": "a"}]
    s = [{"sources": [{"model": "a", "layer_range": [0, 1]}]}]
    mod = {"default": {"models": m}}
    kind = draw(st.sampled_from(["two", "none", "tok", "module-both", "module-none", "emb-none", "emb-both", "ref", "range",
                                 "method", "emb-kind"]))
    c = dict(base)
    if kind == "two":
        for k in draw(st.lists(st.sampled_from(["models", "slices", "modules"]), min_size=2, max_size=3, unique=True)):
            c[k] = {"models": m, "slices": s, "modules": mod}[k]
    elif kind == "none":
        for k in draw(st.lists(st.sampled_from(["models", "slices"]), max_size=2, unique=True)):
            c[k] = []
    elif kind == "tok":
        c.update(models=m, tokenizer_source=draw(st.sampled_from(["union", "base", "x"])),
                 tokenizer={"source": draw(st.sampled_from(["union", "base", "x"]))})
    elif kind == "module-both":
        c["modules"] = {"default": {"models": m, "slices": s}}
    elif kind == "module-none":
        c["modules"] = {"default": {"parameters": {"weight": 1}}}
    elif kind.startswith("emb"):
        e = {"kind": "model_token", "model": "a"}
        if kind == "emb-both":
            e.update(token="x", token_id=draw(st.integers(0, 5)))
        if kind == "emb-kind":
            e = {"kind": draw(st.sampled_from(["zeros", "token", ""]))}
        c.update(models=m, tokenizer={"source": "union", "tokens": {"t": {"source": e}}})
    elif kind == "ref":
        c["models"] = [{"model": draw(bad_ref_cases())}]
    elif kind == "range":
        c["slices"] = [{"sources": [{"model": "a", "layer_range": draw(st.sampled_from([[0], [0, 1, 2], [], "0-1", [0, "x"]]))}]}]
    elif kind == "method":
        c = {"models": m}
    return {"kind": kind, "config": c}


def rejects(case, ctx):
    from mergekit.config import MergeConfiguration

    ctx.interesting()
    ctx.label(case["kind"])
    try:
        c = MergeConfiguration.model_validate(case["config"])
    except Exception:
        return
    require(False, "invalid configuration (%s) accepted as %r", case["kind"], c)


@st.composite
def scalars(draw):
    k = draw(st.sampled_from(["size", "bad-size", "dtype", "bad-dtype"]))
    if k == "size":
        n = draw(st.one_of(st.integers(0, 50), st.integers(0, 10**7)))
        return {"k": k, "n": n, "suffix": draw(st.sampled_from(["", "k", "K", "m", "M", "b", "B", None]))}
    if k == "bad-size":
        return {"k": k, "s": draw(st.sampled_from(["", "b", "k", "x", "5x", "1.5b", "5bb", "k5", "five", "0x10", "5g", "5kb", "1e9",
                                                   "--5", "5t", "b5", "m", "3.0", "5mm", "$5", "nan", "5 6", "1,000"]))}
    if k == "dtype":
        return {"k": k, "s": draw(st.sampled_from(["bfloat16", "float16", "float32", "int64", "torch.bfloat16", "torch.float32",
                                                   "torch.float16", None]))}
    return {"k": k, "s": draw(st.sampled_from(["bf16", "fp16", "float", "int4", "float8", "Float32", "torch.torch.float32", "float32 ",
                                               "bfloat", "half", "auto", "double!"]))}


def scalar(case, ctx):
    import torch

    from mergekit.common import dtype_from_name, parse_kmb
    from mergekit.options import ShardSizeParamType

    ctx.label(case["k"])
    ctx.interesting()
    if case["k"] == "size":
        n, suf = case["n"], case["suffix"]
        mult = {"": 1, "k": 10**3, "m": 10**6, "b": 10**9}[(suf or "").lower()]
        raw = n if suf is None else f"{n}{suf}"
        for f in (parse_kmb, lambda v: ShardSizeParamType().convert(v, None, None)):
            got = f(raw)
            require(got == n * mult and type(got) is int, "size %r means %r, read as %r", raw, n * mult, got)
        return
    if case["k"] == "dtype":
        s = case["s"]
        want = None if s is None else getattr(torch, s.split(".")[-1])
        require(dtype_from_name(s) is want, "dtype %r read as %r", s, dtype_from_name(s))
        return
    f = parse_kmb if case["k"] == "bad-size" else dtype_from_name
    try:
        got = f(case["s"])
    except Exception:
        return
    require(False, "malformed %s %r read as %r", case["k"], case["s"], got)


TESTS = [
    Test("references", ref_cases, references, quick=6000, thorough=60000, shards=2, budget=40,
         rule="1-4 references with paths full of YAML-special characters, revisions, adapters, overrides, through every "
              "serialization used; non-trivial = has a revision, adapter or override"),
    Test("bad_refs", bad_ref_cases, bad_refs, quick=800, thorough=5000, budget=30, rule="references with surplus separators"),
    Test("roundtrip", configs, roundtrip, quick=4000, thorough=60000, shards=4, budget=60,
         rule="complete configurations (models/slices/modules, settings, tokenizer) compared field by field with the raw "
              "text and after three kinds of rewriting; non-trivial = several references or global parameters"),
    Test("rejects", invalid, rejects, quick=800, thorough=5000, budget=30, rule="each documented kind of invalid configuration"),
    Test("scalars", scalars, scalar, quick=1500, thorough=10000, budget=30, rule="sizes and dtypes, valid and malformed"),
]
