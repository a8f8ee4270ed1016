"""C10: spherical merges against float64 spherical geometry."""
import math

import torch
from hypothesis import strategies as st

from vp import e2e, refs
from vp.core import Rejected, Test, require
from vp.gen import DTYPES, describe, make, prod, seeds, shapes
from vp.methods import run_method

PROPERTY = "C10"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: pairs and sets of tensors generated with controlled angles and norms, compared with "
             "independent float64 great-circle, tangent-space and Karcher-mean references")
ASSUMPTIONS = [
    "spherical results are compared with a tolerance that grows with the conditioning of the angle (near-opposite inputs)",
    "between clearly separated directions (|cos| < 0.999) the great-circle point is required and at |cos| > 0.9999 SLERP's linear "
    "fallback; in between either is accepted",
    "the Karcher mean is compared only where it is unique and converges in the allowed iterations (directions within about 60 degrees "
    "of the mean); elsewhere only shape, norm and finiteness are required",
]

ANGLES = ["free", "free", "free", "small", "mid", "wide", "parallel", "near-parallel", "opposite", "near-opposite", "zero-a", "zero-b", "zero-both", "same"]
dts = st.sampled_from(["float32", "float32", "float32", "float32", "bfloat16", "float16"])
ts = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 1 / 3]), st.floats(0, 1, width=32))


def pair(shape, seed, angle, ratio, frac):
    """Two float64 tensors with the given angle between them (as far as the shape allows)."""
    a = make(shape, seed, "normal", torch.float64)
    b = make(shape, seed + 1, "normal", torch.float64)
    if angle == "free":
        return a, b * ratio
    if angle == "zero-a":
        return a * 0, b * ratio
    if angle == "zero-b":
        return a, b * 0
    if angle == "zero-both":
        return a * 0, b * 0
    if angle == "same":
        return a, a.clone()
    if angle == "parallel":
        return a, a * ratio
    if angle == "opposite":
        return a, -a * ratio
    th = {"small": 0.02 + 0.1 * frac, "mid": 0.3 + 1.2 * frac, "wide": 1.6 + 1.2 * frac, "near-parallel": 1e-3 * frac,
          "near-opposite": math.pi - 1e-3 * frac}[angle]
    u = a / a.norm()
    w = b - (b * u).sum() * u
    if float(w.norm()) < 1e-9:
        return a, b * ratio
    w = w / w.norm()
    return a, a.norm() * ratio * (math.cos(th) * u + math.sin(th) * w)


@st.composite
def pairs(draw):
    return {"shape": draw(shapes(1, 3, 6)), "seed": draw(seeds), "angle": draw(st.sampled_from(ANGLES)),
            "ratio": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 0.01, 100.0])), "frac": draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0])),
            "scale": draw(st.sampled_from([1.0, 1.0, 0.02, 1e-4])), "t": draw(ts), "dtype": draw(dts), "base": draw(st.integers(0, 1)),
            "strided": draw(st.sampled_from([False, False, True]))}


def strided(x):
    """The same values in a non-contiguous layout."""
    if x.dim() < 2:
        big = torch.zeros(x.shape[0] * 2, dtype=x.dtype)
        big[::2] = x
        return big[::2]
    y = x.transpose(0, -1).contiguous().transpose(0, -1)
    return y


def check(out, cands, scale, dt, what, k=16, extra=0.0):
    require(isinstance(out, torch.Tensor) and out.shape == cands[0].shape, "%s: result is %s, expected shape %s", what, describe(out),
            tuple(cands[0].shape))
    require(out.dtype == dt, "%s: %s inputs gave a %s result", what, dt, out.dtype)
    require(bool(torch.isfinite(out).all()), "%s: finite inputs gave %s", what, describe(out))
    tol = k * refs.EPS[dt] * scale + extra + 1e-30 + (1e-6 if dt == torch.float16 else 0)
    worst = None
    for c in cands:
        d = float((out.double() - c).abs().max()) if out.numel() else 0.0
        worst = d if worst is None else min(worst, d)
    require(worst <= tol, "%s: result %s, expected %s, difference %g (tolerance %g)", what, describe(out), describe(cands[0]), worst, tol)


def expected(t, a, b, thr_slerp, thr_lin, floor):
    """Admissible results and the conditioning of each: great circle and / or linear."""
    na, nb = float(a.norm()), float(b.norm())
    lin = refs.lerp(t, a, b)
    if na == 0 or nb == 0 or na < floor or nb < floor:
        return None, na + nb
    c = max(-1.0, min(1.0, float((a * b).sum()) / (na * nb)))
    out, amp = [], 1.0
    if abs(c) <= thr_lin:
        p, th = refs.slerp_point(t, a, b) if abs(c) < 1 else (lin, 0)
        amp = 1 / max(math.sin(th), 1e-12) if c < 0 else 1.0
        out.append(p)
    if abs(c) >= thr_slerp:
        out.append(lin)
    return out, (na + nb) * amp


def slerp(case, ctx):
    dt = DTYPES[case["dtype"]]
    a, b = pair(case["shape"], case["seed"], case["angle"], case["ratio"], case["frac"])
    a, b = (a * case["scale"]).to(dt), (b * case["scale"]).to(dt)
    xs = [a, b] if case["base"] == 0 else [b, a]
    if case["strided"]:
        xs = [strided(x) for x in xs]
    out = run_method("slerp", xs, case["base"], {"t": case["t"]})
    cands, sc = expected(case["t"], a.double(), b.double(), 0.999, 0.9999, 1e-7)
    ctx.label(case["angle"], case["dtype"])
    if cands is None:
        # a direction is undefined: only finiteness, and a result in the span of the two
        check(out, [out.double()], sc, dt, "slerp")
        if float(a.norm()) == 0 and float(b.norm()) == 0:
            require(bool((out == 0).all()), "slerp of two zero tensors gave %s", describe(out))
        else:
            # the zero side contributes nothing, the other a coefficient between 0 and 1, monotone in t
            x = a if float(b.norm()) == 0 else b
            tt = 1 - case["t"] if x is a else case["t"]
            if 0 < float(x.norm()) and (float(a.norm()) == 0 or float(b.norm()) == 0) and float(x.norm()) > 1e-6:
                check(out, [tt * x.double(), math.sin(tt * math.pi / 2) * x.double()], sc, dt, "slerp with a zero tensor")
        return
    ctx.interesting(case["t"] not in (0.0, 1.0) and prod(case["shape"]) > 1)
    check(out, cands, sc, dt, f"slerp t={case['t']} ({case['angle']})", k=64)


@st.composite
def nu(draw):
    c = draw(pairs())
    c["flatten"] = draw(st.sampled_from([None, True, False, False]))
    c["row"] = draw(st.sampled_from([None, False, True]))
    c["with_base"] = draw(st.sampled_from([None, None, 0, 1, 2]))
    c["ws"] = draw(st.tuples(*[st.sampled_from([0.0, 0.25, 0.5, 1.0, 1.0, 2.0, 3.0, 0.7])] * 2))
    if draw(st.integers(0, 5)) == 0:
        c["ws"] = tuple(-w for w in c["ws"])
    c["order"] = draw(st.booleans())
    return c


def nuslerp(case, ctx):
    dt = DTYPES[case["dtype"]]
    a, b = pair(case["shape"], case["seed"], case["angle"], case["ratio"], case["frac"])
    base = None
    if case["with_base"] is not None:
        base = make(case["shape"], case["seed"] + 7, "ints", dt)
        # an exactly representable task vector per model
        a, b = (a * 16).round().clamp(-64, 64), (b * 16).round().clamp(-64, 64)
        a, b = (base.double() + a / 16).to(dt), (base.double() + b / 16).to(dt)
    else:
        a, b = (a * case["scale"]).to(dt), (b * case["scale"]).to(dt)
    ws = list(case["ws"])
    xs, tp = [a, b], [{"weight": ws[0]}, {"weight": ws[1]}]
    bi = case["with_base"]
    if base is not None:
        xs.insert(bi, base)
        tp.insert(bi, {"weight": 5.0})
    if case["strided"]:
        xs = [strided(x) for x in xs]
    params = {}
    if case["flatten"] is not None:
        params["nuslerp_flatten"] = case["flatten"]
    if case["row"] is not None:
        params["nuslerp_row_wise"] = case["row"]
    out = run_method("nuslerp", xs, bi, params, tp)
    t = 0.5 if sum(ws) == 0 else ws[1] / sum(ws)
    a, b = a.double(), b.double()
    ref0 = torch.zeros_like(a)
    if base is not None:
        ref0 = base.double()
        a, b = a - ref0, b - ref0
    flat = case["flatten"] is None or case["flatten"]
    ctx.label(case["angle"], case["dtype"], "flat" if flat else ("first-dim" if case["row"] else "last-dim"), "base" if base is not None else "direct")
    eps = refs.EPS[dt]
    require(out.shape == a.shape, "nuslerp: shape %s for inputs of shape %s", tuple(out.shape), tuple(a.shape))
    require(out.dtype == dt, "nuslerp: %s inputs gave a %s result", dt, out.dtype)
    require(bool(torch.isfinite(out).all()), "nuslerp: finite inputs gave %s", describe(out))
    if flat:
        vecs = [(a.reshape(-1), b.reshape(-1), out.double().reshape(-1), ref0.reshape(-1))]
    else:
        d = 0 if case["row"] else -1
        mv = [x.transpose(d, -1).reshape(-1, x.shape[d]) for x in (a, b, out.double(), ref0)]
        vecs = list(zip(*mv))
    n = 0
    for va, vb, vo, v0 in vecs:
        na, nb = float(va.norm()), float(vb.norm())
        if na < 1e-5 or nb < 1e-5:
            if 0 < min(na, nb):
                continue  # direction below the resolution of the method's own guard
            if na == 0 and nb == 0:
                require(bool(((vo - v0).abs() <= 8 * eps * v0.abs()).all()), "nuslerp of two zero vectors gave %s", describe(vo))
            else:
                require(float((vo - v0).norm()) <= 1.6 * (na + nb) + 32 * eps * float(v0.norm()) + 1e-6,
                        "nuslerp with a zero vector gave %s from norms %g, %g", describe(vo), na, nb)
            continue
        c = max(-1.0, min(1.0, float((va * vb).sum()) / (na * nb)))
        lin = refs.lerp(t, va, vb)
        cands, amp = [], 1.0
        if 1 - abs(c) > 1e-14:
            p, th = refs.slerp_point(t, va, vb)
            amp = 1 / math.sin(th) if c < 0 else 1.0
            cands.append(p)
        elif c < 0:
            amp = 1e7
        # rounding of the inner product decides which side of the fallback these are on
        if abs(c) > 1 - 12 * eps:
            cands.append(lin)
        tol = 64 * eps * (na + nb) * amp * amp + 16 * eps * float(v0.abs().max()) + 1e-7
        if c < 0 and amp * amp * eps > 0.02:
            # the direction itself is lost to rounding; opposite vectors fall back to the linear point, so stay bounded
            lim = (na + nb) * min(amp, 1 / math.sqrt(eps)) * 4 + 16 * eps * float(v0.norm())
            require(float((vo - v0).norm()) <= lim, "nuslerp of nearly opposite vectors gave norm %g from norms %g, %g",
                    float((vo - v0).norm()), na, nb)
            if c < -1 + 0.25 * eps:
                err = float((vo - v0 - lin).abs().max())
                require(err <= tol if amp < 10 else err <= 64 * eps * (na + nb + float(v0.norm())) + 1e-7,
                        "nuslerp of opposite vectors gave %s, linear interpolation is %s", describe(vo - v0), describe(lin))
            continue
        n += 1
        err = min(float((vo - v0 - p).abs().max()) for p in cands)
        require(err <= tol, "nuslerp weights=%s (cos %.6f): vector is %s, expected %s, difference %g (tolerance %g)", ws, c, describe(vo - v0),
                describe(cands[0]), err, tol)
    ctx.interesting(n > 0 and 0 < t < 1 and prod(case["shape"]) > 1)


# ---------------------------------------------------------------- sets of models
@st.composite
def sets(draw):
    n = draw(st.integers(2, 5))
    return {"n": n, "shape": draw(shapes(1, 3, 6)), "seed": draw(seeds), "dtype": draw(dts), "spread": draw(st.sampled_from([0.0, 0.05, 0.3, 1.0, 5.0])),
            "norms": draw(st.lists(st.sampled_from([1.0, 1.0, 0.1, 3.0, 20.0, 0.0, 0.004]), min_size=n, max_size=n)),
            "ws": draw(st.lists(st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.25, 0.0]), min_size=n, max_size=n)),
            "normalize": draw(st.sampled_from([None, True, False])), "with_base": draw(st.sampled_from([None, None, 0, 1])),
            "strided": draw(st.booleans()), "max_iter": draw(st.sampled_from([None, None, 30])), "tol": draw(st.sampled_from([None, 1e-6])),
            "embed": draw(st.booleans()), "grow": draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), min_size=n, max_size=n))}


def build(case, dt):
    root = make(case["shape"], case["seed"], "normal", torch.float64)
    xs = []
    for i in range(case["n"]):
        v = root + case["spread"] * make(case["shape"], case["seed"] + 1 + i, "normal", torch.float64)
        v = v / v.norm().clamp(min=1e-9) * case["norms"][i]
        xs.append(v.to(dt))
    return xs


def multislerp(case, ctx):
    dt = DTYPES[case["dtype"]]
    xs = build(case, dt)
    base = None
    if case["with_base"] is not None:
        base = make(case["shape"], case["seed"] + 99, "ints", dt)
        xs = [(base.double() + (x.double() * 16).round() / 16).to(dt) for x in xs]
    ws = case["ws"]
    norm = case["normalize"] is None or case["normalize"]
    if norm and sum(ws) == 0:
        raise Rejected()
    ys = [x.double() - base.double() for x in xs] if base is not None else [x.double() for x in xs]
    live = [i for i, y in enumerate(ys) if float(y.norm()) > 0]
    if not any(ws[i] for i in live):
        raise Rejected()  # weighted sum is zero: documented limitation
    us = [ys[i] / ys[i].norm() * ws[i] for i in live]
    mn = float(sum(us).norm()) / (sum(ws) if norm else 1.0)
    if mn < 0.05:
        raise Rejected()
    tens, tp = list(xs), [{"weight": w} for w in ws]
    bi = None
    if base is not None:
        bi = min(case["with_base"], len(tens))
        tens.insert(bi, base)
        tp.insert(bi, {"weight": 1.0})
    if case["strided"]:
        tens = [strided(x) for x in tens]
    params = {} if case["normalize"] is None else {"normalize_weights": case["normalize"]}
    out = run_method("multislerp", tens, bi, params, tp)
    w = [x / sum(ws) for x in ws] if norm else list(ws)
    # zero tensors have no direction: they add nothing to the mean and have norm 0
    m = sum(w[i] * ys[i] / ys[i].norm() for i in live)
    m = m / m.norm()
    tang = torch.zeros_like(m)
    for i in live:
        u = ys[i] / ys[i].norm()
        tang += w[i] * (u - (u * m).sum() * m)
    tn = float(tang.norm())
    r = m * math.cos(tn) + (tang * (math.sin(tn) / tn) if tn > 1e-12 else 0)
    ref = r * sum(w[i] * float(ys[i].norm()) for i in live)
    sc = sum(abs(w[i]) * float(ys[i].norm()) for i in live) * (1 + sum(map(abs, w))) / mn
    if base is not None:
        ref = ref + base.double()
        sc += float(base.double().abs().max())
    ctx.label(f"n={case['n']}", case["dtype"], "base" if base is not None else "direct", "zero" if len(live) < case["n"] else "all-nonzero")
    ctx.interesting(len(live) >= 2 and case["spread"] > 0 and prod(case["shape"]) > 1)
    check(out, [ref], sc, dt, "multislerp", k=64, extra=1e-6 * sc)


def karcher(case, ctx):
    dt = DTYPES[case["dtype"]]
    xs = build(case, dt)
    big = case["embed"] and len(case["shape"]) == 2
    given = list(xs)
    if big:
        # larger vocabularies: the merge works on the rows all have
        given = []
        for x, (r, c) in zip(xs, case["grow"]):
            y = torch.full((x.shape[0] + r, x.shape[1] + c), 3.0, dtype=dt)
            y[:x.shape[0], :x.shape[1]] = x
            given.append(y)
        lim = [min(g.shape[0] for g in given), min(g.shape[1] for g in given)]
        xs = [g[:lim[0], :lim[1]] for g in given]
    if case["strided"]:
        given = [strided(x) for x in given]
    params = {}
    if case["max_iter"] is not None:
        params["max_iter"] = case["max_iter"]
    if case["tol"] is not None:
        params["tol"] = case["tol"]
    out = run_method("karcher", given, None, params, embed=big)
    ys = [x.double() for x in xs]
    norms = [float(y.norm()) for y in ys]
    ctx.label(f"n={case['n']}", case["dtype"], "zero" if 0 in norms else "all-nonzero", "embed" if big else "plain")
    require(out.shape == xs[0].shape and out.dtype == dt, "karcher: result %s for inputs %s", describe(out), describe(xs[0]))
    require(bool(torch.isfinite(out).all()), "karcher: finite inputs gave %s", describe(out))
    s = sum(norms) / len(norms)
    eps = refs.EPS[dt]
    if max(norms) == 0:
        require(bool((out == 0).all()), "karcher mean of zero tensors is %s", describe(out))
        return
    on = float(out.double().norm())
    require(abs(on - s) <= 32 * eps * s + 1e-6, "karcher: norm %g, mean of the inputs' norms %g", on, s)
    live = [y for y in ys if float(y.norm()) > 0]
    mean = sum(y / y.norm() for y in live)
    if float(mean.norm()) / len(live) < 0.5:
        ctx.label("spread-out")
        return
    ref, far = refs.karcher(live, 2000)
    ref = ref / ref.norm() * s
    if far > 1.05:
        ctx.label("spread-out")
        return
    ctx.interesting(case["spread"] > 0 and len(live) >= 2 and prod(case["shape"]) > 1)
    tol = 3e-4 if dt == torch.float32 else 40 * eps
    err = float((out.double() - ref).norm())
    require(err <= tol * s + 1e-6, "karcher: result %s, converged mean %s, distance %g", describe(out), describe(ref), err)


# ---------------------------------------------------------------- whole merges
@st.composite
def whole(draw):
    return {"method": draw(st.sampled_from(["slerp", "nuslerp", "nuslerp", "multislerp", "karcher"])), "seed": draw(st.integers(0, 10**6)), "t": draw(ts),
            "ws": draw(st.tuples(*[st.sampled_from([0.25, 1.0, 2.0, 0.5])] * 3)), "base": draw(st.booleans()), "first": draw(st.booleans()),
            "spread": draw(st.sampled_from([None, 0.3])), "flatten": draw(st.booleans()), "row": draw(st.booleans())}


def e2e_merge(case, ctx):
    root = ctx.tmp()
    m = case["method"]
    paths, sds = e2e.inputs(root, 3, case["seed"], spread=case["spread"])
    ws, base, params, tp = case["ws"], None, {}, None
    if m == "slerp":
        base = 0 if case["first"] else 1
        out = e2e.run(root, m, paths[:2], base=base, params={"t": case["t"]}, listed_base=True)
    elif m == "nuslerp":
        base = 0 if case["base"] else None
        out = e2e.run(root, m, paths if case["base"] else paths[1:], base=base, listed_base=False,
                      params={"nuslerp_flatten": case["flatten"], "nuslerp_row_wise": case["row"]},
                      tparams=[None] * (1 if case["base"] else 0) + [{"weight": ws[1]}, {"weight": ws[2]}])
    elif m == "multislerp":
        base = 0 if case["base"] else None
        out = e2e.run(root, m, paths if case["base"] else paths[1:], base=base, listed_base=False,
                      tparams=[None] * (1 if case["base"] else 0) + [{"weight": ws[1]}, {"weight": ws[2]}])
    else:
        out = e2e.run(root, m, paths, params={"max_iter": 30})
    ctx.label(m)
    ctx.interesting(True)
    for k in sorted(sds[0]):
        x = [sd[k].double() for sd in sds]
        got = out[k].double()
        if m == "slerp":
            a, b = (x[0], x[1]) if base == 0 else (x[1], x[0])
            cands, sc = expected(case["t"], a, b, 0.999, 0.9999, 1e-7)
            tol = 1e-5 * sc
        elif m == "nuslerp":
            z = x[0] if base == 0 else torch.zeros_like(x[0])
            t = ws[2] / (ws[1] + ws[2])
            a, b = x[1] - z, x[2] - z
            if case["flatten"]:
                r = slerp_or_lerp(t, a.reshape(-1), b.reshape(-1)).reshape(a.shape)
            else:
                d = 0 if case["row"] else -1
                at, bt = a.transpose(d, -1), b.transpose(d, -1)
                r = torch.stack([slerp_or_lerp(t, p, q) for p, q in zip(at.reshape(-1, at.shape[-1]), bt.reshape(-1, at.shape[-1]))])
                r = r.reshape(at.shape).transpose(d, -1)
                if any(refs.cosine(p, q) is None or refs.cosine(p, q) < -0.99 for p, q in zip(at.reshape(-1, at.shape[-1]), bt.reshape(-1, at.shape[-1]))):
                    continue
            if refs.cosine(a, b) < -0.99:
                continue
            cands, tol = [r + z], 1e-4 * float(a.norm() + b.norm()) + 1e-6
        elif m == "multislerp":
            z = x[0] if base == 0 else None
            r, mn = refs.multislerp(x[1:], list(ws[1:]), z, True)
            if mn < 0.1:
                continue
            cands, tol = [r], 1e-4 * float(x[1].norm() + x[2].norm())
        else:
            ref, far = refs.karcher(x, 2000)
            if far > 1.05:
                continue
            cands, tol = [ref], 1e-3 * float(ref.norm())
        err = min(float((got - c).abs().max()) for c in cands)
        require(err <= tol, "%s merge: tensor %s is %s, expected %s (difference %g)", m, k, describe(got), describe(cands[0]), err)


def slerp_or_lerp(t, a, b):
    c = refs.cosine(a, b)
    if c is None or abs(c) > 1 - 1e-12:
        return refs.lerp(t, a, b)
    return refs.slerp_point(t, a, b)[0]


def prepare():
    e2e.warm()


TESTS = [
    Test("slerp", pairs, slerp, quick=700, thorough=30000, shards=1,
         rule="pairs with controlled angle, norm ratio, scale, layout and dtype; non-trivial = 0<t<1 on more than one element, both nonzero"),
    Test("nuslerp", nu, nuslerp, quick=1200, thorough=40000, shards=2,
         rule="whole-tensor, per-last-dim and per-first-dim modes, with or without base; non-trivial = a well-conditioned vector compared at 0<t<1"),
    Test("multislerp", sets, multislerp, quick=500, thorough=20000, rule="2-5 tensors around a common direction; non-trivial = two nonzero different ones"),
    Test("karcher", sets, karcher, quick=500, thorough=20000, shards=2, rule="as multislerp; non-trivial = unique mean compared with the converged reference"),
    Test("whole_merge", whole, e2e_merge, quick=40, thorough=800, shards=2, rule="merges of tiny models from configuration to written tensors"),
]
