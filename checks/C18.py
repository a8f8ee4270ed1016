"""C18: embedding approximations solve the problem they state."""
import types

import torch
from hypothesis import strategies as st

from vp.core import Test, require
from vp.gen import DTYPES, close, make, maxdiff, rng
from vp.toks import write_tokenizer

PROPERTY = "C18"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated point sets (generic, duplicated, rank-deficient, rotated) and tokens; optimality and recovery "
             "conditions checked in double precision, closed-form references for the fill rules, the model library's rotary embedding as a reference")
ASSUMPTIONS = [
    "fewer shared tokens than neighbours requested, or (for landmark PCA) than dimensions, is refused",
    "exact recovery is required of matching pursuit where the mutual coherence of the points guarantees it",
    "random fills are compared with their distribution by its mean and covariance over many samples",
]

FLOATS = ["float32", "float32", "float64", "bfloat16", "float16"]
D = torch.float64


def tol_of(*dts):
    return max({"float64": 1e-9, "float32": 2e-4, "bfloat16": 5e-2, "float16": 8e-3}[d] for d in dts)


# ---------------------------------------------------------------- OMP

@st.composite
def omp_cases(draw):
    d = draw(st.integers(2, 14))
    n = draw(st.integers(2, 24))
    return {"d": d, "n": n, "b": draw(st.integers(1, 5)), "k": draw(st.integers(1, min(n, 16))), "seed": draw(st.integers(0, 10**6)),
            "dtype": draw(st.sampled_from(["float32", "float32", "float64", "bfloat16"])),
            "points": draw(st.sampled_from(["normal", "normal", "unit", "orthonormal", "dup", "lowrank", "zeros", "wide"])),
            "target": draw(st.sampled_from(["normal", "sparse", "sparse", "point", "zero", "span"])),
            "s": draw(st.integers(1, 3)), "interval": draw(st.sampled_from([1, 2, 3, 256, 256]))}


def point_set(kind, n, d, seed, dtype):
    p = make((n, d), seed, "wide" if kind == "wide" else "normal", D)
    g = rng(seed + 1)
    if kind == "wide":
        p = make((n, d), seed, "normal", D) * (10.0 ** torch.randint(-2, 2, (n, 1), generator=g).double())
    if kind == "unit":
        p = p / p.norm(dim=1, keepdim=True)
    elif kind == "orthonormal":
        q, _ = torch.linalg.qr(make((d, d), seed, "normal", D))
        p = q[: min(n, d)]
        if n > d:  # the rest is short, so never preferred
            p = torch.cat([p, 0.01 * make((n - d, d), seed + 2, "normal", D)])
    elif kind == "dup":
        m = max(1, n // 3)
        p = p[:m].repeat(n // m + 1, 1)[:n]
    elif kind == "lowrank":
        r = max(1, min(n, d) // 2)
        p = make((n, r), seed, "normal", D) @ make((r, d), seed + 1, "normal", D)
    elif kind == "zeros":
        p = p * (torch.rand((n, 1), generator=g, dtype=D) < 0.4)
    return p.to(DTYPES[dtype])


def omp(case, ctx):
    from mergekit.tokensurgeon import batch_omp

    n, d, b, k, dt = case["n"], case["d"], case["b"], case["k"], case["dtype"]
    p = point_set(case["points"], n, d, case["seed"], dt)
    g = rng(case["seed"] + 5)
    s = min(case["s"], n)
    if case["target"] == "sparse":
        w = torch.zeros(b, n, dtype=D)
        for i in range(b):
            w[i, torch.randperm(n, generator=g)[:s]] = (1 + torch.rand(s, generator=g, dtype=D)) * torch.sign(torch.randn(s, generator=g, dtype=D))
        t = w @ p.double()
    elif case["target"] == "span":
        t = make((b, n), case["seed"] + 3, "normal", D) @ p.double()
    elif case["target"] == "point":
        t = p[torch.randint(0, n, (b,), generator=g)].double()
    elif case["target"] == "zero":
        t = torch.zeros(b, d, dtype=D)
    else:
        t = make((b, d), case["seed"] + 3, "normal", D)
    t = t.to(DTYPES[dt])
    p0, t0 = p.clone(), t.clone()
    idx, co = batch_omp(t, p, k, reorthogonalize_interval=case["interval"])
    require(torch.equal(p, p0) and torch.equal(t, t0), "the arguments were modified")
    require(idx.shape == (b, k) and co.shape == (b, k), "shapes %s, %s", idx.shape, co.shape)
    require(bool(torch.isfinite(co).all()), "coefficients are not finite: %s", co)
    T, P, C = t.double(), p.double(), co.double()
    tol = 1e-8 if dt == "float64" else 2e-4
    for i in range(b):
        sel = idx[i].tolist()
        require(len(set(sel)) == k and all(0 <= j < n for j in sel), "selected points %s", sel)
        A = P[sel]
        nt = float(T[i].norm())
        scale = nt + 1e-30
        res = T[i] - C[i] @ A
        best_prev = nt
        for m in range(1, k + 1):
            sol = torch.linalg.lstsq(A[:m].T, T[i].unsqueeze(-1), driver="gelsd", rcond=1e-6 if dt != "float64" else 1e-11).solution.squeeze(-1)
            r_m = T[i] - sol @ A[:m]
            # greedy choice: the next point correlates most with what is left
            if m < k and float(r_m.norm()) > 20 * tol * scale:
                corr = (P @ r_m).abs()
                rest = [j for j in range(n) if j not in sel[:m]]
                top = float(corr[rest].max())
                require(float(corr[sel[m]]) >= top * (1 - 5e-2) - tol * scale * float(P.norm(dim=1).max()),
                        "choice %d has correlation %g with the residual, %g was available", m, float(corr[sel[m]]), top)
            best_prev = float(r_m.norm())
        svals = torch.linalg.svdvals(A)
        big = float(svals.max()) if len(svals) else 0.0
        nz = svals[svals > 1e-5 * big] if big > 0 else svals[:0]
        cond = float(big / nz.min()) if len(nz) else 1.0
        if len(nz) and bool(((svals > 1e-7 * big) & (svals <= 1e-3 * big)).any()) and dt != "float64":
            ctx.label("ill_conditioned")
            require(float(res.norm()) <= nt * 1.05 + 1e-9, "the residual %g exceeds the target %g", float(res.norm()), nt)
            continue
        # no larger than the least squares solution over the chosen points
        require(float(res.norm()) <= best_prev * (1 + 1e-2) + tol * scale * max(1.0, cond), "residual %g, the chosen points allow %g (target %g)",
                float(res.norm()), best_prev, nt)
        for j in range(k):
            require(abs(float(A[j] @ res)) <= tol * max(1.0, cond) * scale * (float(A[j].norm()) + 1e-30) * 4 + 1e-12,
                    "residual is not orthogonal to chosen point %d: %g", j, float(A[j] @ res))
        lim = 1e3 * scale * max(1.0, cond) / (float(nz.min()) if len(nz) else 1.0)
        require(float(C[i].abs().max()) <= lim, "a coefficient of %g for a target of length %g", float(C[i].abs().max()), nt)
        if case["points"] == "orthonormal" and case["target"] == "sparse" and s <= k:
            pass
    # exact recovery
    nrm = P.norm(dim=1)
    if case["target"] in ("sparse", "point") and s <= k and float(nrm.min()) > 0.99 and float(nrm.max()) < 1.01:
        G = (P @ P.T).abs()
        G.fill_diagonal_(0)
        mu = float(G.max())
        ss = 1 if case["target"] == "point" else s
        if mu < 1 / (2 * ss - 1) - 0.05 and mu < 0.95:
            rec = torch.bmm(C.unsqueeze(1), P[idx]).squeeze(1)
            require(close(rec, T, 0, tol * 10 * float(T.norm(dim=1).max() + 1)), "a %d-sparse target is off by %s", ss, maxdiff(rec, T))
            ctx.label("recovery")
            ctx.interesting()
    if k > 1:
        idx2, _ = batch_omp(t, p, k - 1, reorthogonalize_interval=case["interval"])
        _ = idx2
    ctx.label(case["points"], case["target"], dt)
    ctx.interesting(k > 1)


# ---------------------------------------------------------------- interpolation

@st.composite
def interp_cases(draw):
    n = draw(st.integers(2, 40))
    return {"n": n, "d": draw(st.integers(1, 10)), "b": draw(st.integers(1, 5)), "k": draw(st.one_of(st.none(), st.integers(1, min(n, 12)))),
            "seed": draw(st.integers(0, 10**6)), "dtype": draw(st.sampled_from(FLOATS)),
            "scheme": draw(st.sampled_from(["distance_proportional", "barycentric", "least_squares"])),
            "metric": draw(st.sampled_from(["euclidean", "cosine"])),
            "target": draw(st.sampled_from(["normal", "normal", "affine", "point", "opposite"])),
            "points": draw(st.sampled_from(["normal", "normal", "positive", "dup"]))}


def interp(case, ctx):
    from mergekit.tokensurgeon import WeightingScheme, common_interp_approximate
    from mergekit.tokensurgeon.common_interpolation import DistanceMetric

    n, d, b, k, dt = case["n"], case["d"], case["b"], case["k"], case["dtype"]
    p = make((n, d), case["seed"], "normal", D)
    if case["points"] == "positive":
        p = p.abs() + 0.1
    elif case["points"] == "dup":
        p = p[: max(1, n // 2)].repeat(3, 1)[:n]
    g = rng(case["seed"] + 9)
    if case["target"] == "affine":
        w = torch.rand((b, n), generator=g, dtype=D)
        t = (w / w.sum(dim=1, keepdim=True)) @ p
    elif case["target"] == "point":
        t = p[torch.randint(0, n, (b,), generator=g)]
    elif case["target"] == "opposite":
        t = -p[torch.randint(0, n, (b,), generator=g)]
    else:
        t = make((b, d), case["seed"] + 3, "normal", D)
    p, t = p.to(DTYPES[dt]), t.to(DTYPES[dt])
    idx, w = common_interp_approximate(t, p, k=k, metric=DistanceMetric(case["metric"]), weight_scheme=WeightingScheme(case["scheme"]))
    kk = n if k is None else k
    require(tuple(idx.shape) == (b, kk) and tuple(w.shape) == (b, kk), "shapes %s, %s", idx.shape, w.shape)
    require(bool(torch.isfinite(w).all()), "weights are not finite")
    T, P, W = t.double(), p.double(), w.double()
    tol = max(1e-6 if dt == "float64" else 2e-3, 0)
    for i in range(b):
        sel = idx[i].tolist()
        require(len(set(sel)) == kk, "neighbours %s", sel)
        if case["metric"] == "euclidean":
            dist = (P - T[i]).norm(dim=1)
        else:
            dist = 1 - (P @ T[i]) / (P.norm(dim=1) * T[i].norm()).clamp_min(1e-6)
        rest = [j for j in range(n) if j not in sel]
        if rest:
            require(float(dist[sel].max()) <= float(dist[rest].min()) + tol * (1 + float(dist.max())),
                    "a neighbour at %g was chosen, one at %g left out", float(dist[sel].max()), float(dist[rest].min()))
        A = P[sel]
        wi = W[i]
        if case["scheme"] == "distance_proportional":
            require(bool((wi >= 0).all()), "negative weight %g", float(wi.min()))
            require(abs(float(wi.sum()) - 1) <= 1e-3, "weights sum to %g", float(wi.sum()))
            if case["metric"] == "euclidean":
                ds = dist[sel]
                if float(ds.min()) > 0.05:
                    e = 1 / ds
                    require(close(wi, e / e.sum(), 2e-2 if dt != "float64" else 1e-6, 1e-4), "weights %s, expected %s", wi, e / e.sum())
                    ctx.label("proportional")
                elif float(ds.min()) < 1e-5 and dt == "float64":
                    hit = float(wi[ds <= 1e-4].sum())
                    require(hit > 0.9, "an exact neighbour has only a weight of %g", hit)
            else:
                sim = 1 - dist[sel]
                if float(sim.min()) > 0.02:
                    require(close(wi, sim / sim.sum(), 2e-2 if dt != "float64" else 1e-6, 1e-4), "weights %s, expected %s", wi, sim / sim.sum())
                    ctx.label("cosine")
                elif float(sim.max()) > 0.05:
                    e = sim.clamp_min(0)
                    require(close(wi, e / e.sum(), 2e-2, 2e-3), "weights %s, expected %s", wi, e / e.sum())
                    ctx.label("cosine_negative")
        elif case["scheme"] == "barycentric":
            # best combination with weights that sum to one
            require(abs(float(wi.sum()) - 1) <= 5e-2, "barycentric weights sum to %g", float(wi.sum()))
            base = A[0]
            M = (A[1:] - base).T
            best = T[i] - base
            if kk > 1:
                sol = torch.linalg.lstsq(M, (T[i] - base).unsqueeze(-1), driver="gelsd").solution.squeeze(-1)
                best = T[i] - base - M @ sol
            got = T[i] - wi @ A
            sv = torch.linalg.svdvals(A)
            cond_ok = dt == "float64" or float(sv.min()) > 0.05 * float(sv.max())
            slack = (1e-5 if dt == "float64" else 2e-2) * (1 + float(T[i].norm()) + float(A.norm()))
            if cond_ok or len(sel) > d + 1:
                require(float(got.norm()) <= float(best.norm()) + slack, "barycentric residual %g, %g is possible", float(got.norm()),
                        float(best.norm()))
                ctx.label("barycentric")
        else:
            sol = torch.linalg.lstsq(A.T, T[i].unsqueeze(-1), driver="gelsd").solution.squeeze(-1)
            best = float((T[i] - sol @ A).norm())
            got = float((T[i] - wi @ A).norm())
            require(got <= best + 2e-3 * (1 + float(T[i].norm())), "least squares residual %g, %g is possible", got, best)
            ctx.label("least_squares")
    ctx.label(dt, case["metric"])
    ctx.interesting(kk > 1)


# ---------------------------------------------------------------- landmark PCA

@st.composite
def pca_cases(draw):
    da = draw(st.integers(1, 8))
    db = draw(st.integers(1, 8))
    return {"da": da, "db": db, "n": max(da, db) + draw(st.integers(2, 20)), "b": draw(st.integers(1, 5)), "seed": draw(st.integers(0, 10**6)),
            "dtype": draw(st.sampled_from(["float32", "float32", "bfloat16"])), "kind": draw(st.sampled_from(["isometry", "isometry", "noisy", "any"])),
            "isotropic": draw(st.booleans())}


def orthogonal(r, seed):
    q, x = torch.linalg.qr(make((r, r), seed, "normal", D))
    return q * torch.sign(torch.diagonal(x))


def pca(case, ctx):
    from mergekit.tokensurgeon import landmark_pca_approximate

    da, db, n, b, seed, dt = case["da"], case["db"], case["n"], case["b"], case["seed"], case["dtype"]
    r = min(da, db)
    x = make((n, r), seed, "normal", D)
    y = make((b, r), seed + 1, "normal", D)
    if case["isotropic"]:  # equal variance in all directions: any principal axes
        x = x - x.mean(dim=0)
        u, _, v = torch.linalg.svd(x, full_matrices=False)
        x = u @ v * n**0.5
    qa, qb = orthogonal(da, seed + 2)[:r], orthogonal(db, seed + 3)[:r]
    a, t = x @ qa + 1, y @ qa + 1
    bb = x @ qb - 2
    want = y @ qb - 2
    if case["kind"] == "noisy":
        bb = bb + 0.2 * make(bb.shape, seed + 4, "normal", D)
    elif case["kind"] == "any":
        a, bb = make((n, da), seed + 4, "normal", D), make((n, db), seed + 5, "normal", D)
        t = make((b, da), seed + 6, "normal", D)
    a, bb, t = (z.to(DTYPES[dt]) for z in (a, bb, t))
    torch.manual_seed(seed)
    out = landmark_pca_approximate(t, a, bb)
    require(tuple(out.shape) == (b, db) and out.dtype == t.dtype, "returned %s %s", out.dtype, tuple(out.shape))
    require(bool(torch.isfinite(out).all()), "not finite")
    if case["kind"] == "isometry" and dt == "float32":
        require(close(out, want, 0, 2e-3 * (1 + float(want.abs().max()))), "a rotation of the landmarks is off by %s", maxdiff(out, want))
        ctx.label("recovery")
    if da == db and dt == "float32":
        # no orthogonal map fits the landmarks better
        fit = landmark_pca_approximate(a, a, bb).double()
        A, B = a.double(), bb.double()
        ma, mb = A.mean(dim=0), B.mean(dim=0)
        u, _, v = torch.linalg.svd((A - ma).T @ (B - mb))
        best = float(((A - ma) @ (u @ v) + mb - B).norm())
        got = float((fit - B).norm())
        require(got <= best * 1.01 + 1e-2, "landmarks are fitted with error %g, a rotation allows %g", got, best)
        ctx.label("procrustes")
    ctx.label(case["kind"], "same_dim" if da == db else "up" if da < db else "down")
    ctx.interesting(r > 1)


# ---------------------------------------------------------------- rotary helpers

@st.composite
def rope_cases(draw):
    return {"heads": draw(st.integers(1, 3)), "hd": draw(st.sampled_from([2, 4, 8])), "b": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10**6)),
            "base": draw(st.sampled_from([10.0, 10000.0, 500000.0])), "pos": draw(st.floats(-2.5, 2.5)), "n": draw(st.integers(1, 8)),
            "k": draw(st.integers(1, 4)), "heads_b": draw(st.integers(1, 3)), "hd_b": draw(st.sampled_from([2, 4])),
            "dtype": draw(st.sampled_from(["float32", "float32", "bfloat16"])), "case": draw(st.sampled_from(["same", "other", "roped"]))}


def rope(case, ctx):
    from transformers.models.llama.modeling_llama import apply_rotary_pos_emb

    from mergekit.tokensurgeon import batch_mp_rope
    from mergekit.tokensurgeon import rope_helpers as rh

    nh, hd, b, base, pos = case["heads"], case["hd"], case["b"], case["base"], case["pos"]
    x = make((b, nh * hd), case["seed"], "normal", torch.float32)
    p = torch.full((b, 1), pos)
    got = rh.apply_rope(x, p, nh, hd, base=base)
    # reference: the model library
    inv = 1.0 / (base ** (torch.arange(0, hd, 2).float() / hd))
    ang = (pos * inv)
    emb = torch.cat([ang, ang]).view(1, 1, hd)
    q = x.view(b, nh, 1, hd)
    ref, _ = apply_rotary_pos_emb(q, q, emb.cos(), emb.sin())
    ref = ref.reshape(b, nh * hd)
    require(close(got, ref, 1e-4, 1e-4), "rotary embedding differs from the model library by %s", maxdiff(got, ref))
    theta = ang.expand(b, nh, hd // 2)
    m = rh.llama_rope_rotationmat(theta)
    viam = torch.einsum("bhi,bhij->bhj", x.view(b, nh, hd), m).reshape(b, -1)
    require(close(viam, ref, 1e-4, 1e-4), "rotation matrix differs from the model library by %s", maxdiff(viam, ref))
    for est in (rh.estimate_position_id, rh.estimate_position_id_projection, rh.estimate_pos_id_best):
        e = est(x, got, nh, hd, base=base)
        require(tuple(e.shape) == (b, 1), "%s returned shape %s", est.__name__, tuple(e.shape))
        ill = (x.view(b, nh, 2, hd // 2).pow(2).sum(dim=2).min(dim=-1).values.min(dim=-1).values < 1e-3).any()
        if not ill and base < 1e5:
            require(close(e, p, 2e-2, 2e-2), "%s estimated %s for position %g", est.__name__, e.flatten().tolist(), pos)
    th = rh.estimate_theta(x, got, nh, hd)
    back = rh.apply_rope_theta(x, th, nh, hd)
    require(close(back, got, 1e-3, 1e-3), "estimated angles reproduce the vector up to %s", maxdiff(back, got))

    # matching pursuit over rotated points
    dt = DTYPES[case["dtype"]]
    n, k = case["n"], min(case["k"], case["n"])
    pa = make((n, nh * hd), case["seed"] + 1, "normal", dt)
    g = rng(case["seed"] + 2)
    pick = torch.randint(0, n, (b,), generator=g)
    if case["case"] == "same":
        pb, nhb, hdb, t = pa, nh, hd, make((b, nh * hd), case["seed"] + 3, "normal", dt)
    elif case["case"] == "roped":
        pb, nhb, hdb = pa, nh, hd
        t = rh.apply_rope(pa[pick].float(), torch.full((b, 1), 0.01 * pos), nh, hd, base=base).to(dt)
    else:
        nhb, hdb = case["heads_b"], case["hd_b"]
        pb, t = make((n, nhb * hdb), case["seed"] + 4, "normal", dt), make((b, nh * hd), case["seed"] + 3, "normal", dt)
    idx, co, out, _ = batch_mp_rope(t, pa, pb, k, nh, nhb, a_rope_base=base, b_rope_base=base)
    require(tuple(idx.shape) == (b, k) and tuple(co.shape) == (b, k) and tuple(out.shape) == (b, nhb * hdb), "shapes %s %s %s", idx.shape,
            co.shape, out.shape)
    require(out.dtype == t.dtype and bool(torch.isfinite(out).all()), "returned %s, finite: %s", out.dtype, bool(torch.isfinite(out).all()))
    for i in range(b):
        require(len(set(idx[i].tolist())) == k, "points %s chosen", idx[i].tolist())
        top = (pa.double() @ t[i].double()).abs()
        require(float(top[idx[i, 0]]) >= float(top.max()) * 0.95 - 1e-3, "first point does not correlate most")
    if case["case"] == "same":
        for i in range(b):
            r = float((out[i].double() - t[i].double()).norm())
            require(r <= float(t[i].double().norm()) * (1.02 if dt == torch.float32 else 1.1), "residual %g for a target of %g", r,
                    float(t[i].double().norm()))
    if case["case"] == "roped" and n == 1 and dt == torch.float32:
        require(close(out, t, 0, 2e-2 * (1 + float(t.abs().max()))), "a rotated point is off by %s", maxdiff(out, t))
        ctx.label("recovered")
    ctx.label(case["case"], case["dtype"])
    ctx.interesting()


# ---------------------------------------------------------------- fill rules, sub-words, sparse token basis

WORDS = ["a", "b", "c", "d", "e", "ab", "cd", "Ġa", "Ġb", "Ġ", "x", "y"]


@st.composite
def fill_cases(draw):
    method = draw(st.sampled_from(["mean", "zero", "randn", "john_hewitt", "subword", "subword", "subword", "stb", "stb", "omp",
                                   "common_interpolation", "landmark_pca", "mp_rope"]))
    do = draw(st.sampled_from([2, 4, 6]))
    dd = draw(st.sampled_from([2, 4, 6]))
    shared = draw(st.integers(8, 14))
    return {"method": method, "do": do, "dd": dd, "shared": shared, "own": draw(st.integers(0, 4)), "new": draw(st.integers(1, 5)),
            "seed": draw(st.integers(0, 10**6)), "dtype": draw(st.sampled_from(["float32", "float32", "bfloat16", "float16"])),
            "k": draw(st.integers(1, 6)), "sub": draw(st.sampled_from(["mean", "sum", "weighted_mean", "first_last"])),
            "head": draw(st.booleans()), "words": draw(st.lists(st.text("abcdexy", min_size=1, max_size=5), min_size=1, max_size=4, unique=True)),
            "start": draw(st.booleans()), "scheme": draw(st.sampled_from(["distance_proportional", "barycentric", "least_squares"])),
            "cos": draw(st.booleans()), "linear": draw(st.booleans()), "small": draw(st.booleans())}


TOKENIZERS = {}


def tokenizer(ctx):
    """A byte-level tokenizer over a few letters, with merges."""
    if "t" not in TOKENIZERS:
        import transformers

        p = ctx.tmp()
        vocab = ["<unk>"] + WORDS
        write_tokenizer(p, vocab, merges=[("a", "b"), ("c", "d"), ("Ġ", "a"), ("Ġ", "b")])
        import json
        import os

        fn = os.path.join(p, "tokenizer.json")
        with open(fn) as f:
            d = json.load(f)
        d["pre_tokenizer"] = {"type": "ByteLevel", "add_prefix_space": False, "trim_offsets": True, "use_regex": True}
        with open(fn, "w") as f:
            json.dump(d, f)
        TOKENIZERS["t"] = transformers.AutoTokenizer.from_pretrained(p)
        TOKENIZERS["v"] = {t: i for i, t in enumerate(vocab)}
    return TOKENIZERS["t"], TOKENIZERS["v"]


def pieces(text, v):
    """Reference tokenization: greedy application of the merges, in their order."""
    toks = list(text.replace(" ", "Ġ"))
    for m in [("a", "b"), ("c", "d"), ("Ġ", "a"), ("Ġ", "b")]:
        i = 0
        while i < len(toks) - 1:
            if (toks[i], toks[i + 1]) == m:
                toks[i:i + 2] = ["".join(m)]
            i += 1
    return [v.get(t, 0) for t in toks]


def fill(case, ctx):
    from mergekit.scripts import tokensurgeon as ts
    from mergekit.tokenizer.normalization import TokenMarker
    from mergekit.tokensurgeon import SubwordMethod, WeightingScheme, compute_token_basis, subword_approximate

    do, dd, seed, dt = case["do"], case["dd"], case["seed"], DTYPES[case["dtype"]]
    tok, v = tokenizer(ctx)
    name = case["method"]
    ctx.label(name)
    if name == "subword":
        emb = make((len(v), do), seed, "ints", dt)
        targets = [(TokenMarker.WORD_START, w) if case["start"] and i % 2 else w for i, w in enumerate(case["words"])]
        out = subword_approximate(emb, targets, case["head"], tok, SubwordMethod(case["sub"]))
        require(tuple(out.shape) == (len(targets), do) and out.dtype == dt, "returned %s %s", out.dtype, tuple(out.shape))
        for i, t in enumerate(targets):
            text = " " + t[1] if isinstance(t, tuple) else t
            ids = pieces(text, v)
            e = emb[ids].double()
            if case["sub"] == "mean":
                want = e.mean(dim=0)
            elif case["sub"] == "sum":
                want = e.sum(dim=0)
            elif case["sub"] == "first_last":
                want = e[0] if case["head"] else e[-1]
            else:
                w = torch.arange(1, len(ids) + 1, dtype=D)
                w = w.flip(0) if case["head"] else w
                want = (w.unsqueeze(1) * e).sum(dim=0) / w.sum()
            require(close(out[i], want, tol_of(case["dtype"]), tol_of(case["dtype"])), "%s of %r (pieces %s, %s) is %s, expected %s", case["sub"], text, ids,
                    "head" if case["head"] else "embedding", out[i].tolist(), want.tolist())
            if len(ids) > 1:
                ctx.interesting()
        ctx.label(case["sub"])
        return

    s, own, new = case["shared"], case["own"], case["new"]
    if case["small"] and name in ("john_hewitt", "mean", "zero", "randn"):
        s = 2
    # ids in different orders on both sides
    g = rng(seed + 50)
    po, pd = torch.randperm(s + own, generator=g).tolist(), torch.randperm(s + new, generator=g).tolist()
    orig_vocab = {f"s{i}": po[i] for i in range(s)} | {f"o{i}": po[s + i] for i in range(own)}
    donor_vocab = {f"s{i}": pd[i] for i in range(s)} | {f"n{i}": pd[s + i] for i in range(new)}
    targets = [f"n{i}" for i in range(new)]
    orig = make((s + own, do), seed, "normal", dt)
    donor = make((s + new, dd), seed + 1, "normal", dt)
    R = None
    if case["linear"] and dt == torch.float32 and dd <= do:
        R = make((dd, do), seed + 2, "normal", torch.float32)
        if name == "landmark_pca":
            R = orthogonal(do, seed + 2)[:dd].float()
        for i in range(s):
            orig[orig_vocab[f"s{i}"]] = donor[donor_vocab[f"s{i}"]] @ R
    do0, dd0 = orig.clone(), donor.clone()
    k = min(case["k"], s)
    stub = types.SimpleNamespace(config=lambda trust_remote_code=False: types.SimpleNamespace(num_attention_heads=1, rope_theta=10000.0,
                                                                                               rope_parameters={"rope_theta": 10000.0}))
    opts = types.SimpleNamespace(method=ts.ApproximationMethod(name), k=k, cosine_similarity=case["cos"], weight_scheme=WeightingScheme(case["scheme"]),
                                 subword_method=SubwordMethod.MEAN, model=stub, donor=stub, trust_remote_code=False)
    basis = None
    if name == "stb":
        basis = compute_token_basis(orig, donor, orig_vocab, donor_vocab, [], k)
        for m, d in zip(basis, (dd, do)):
            require(tuple(m.shape) == (min(do, dd), d) and bool(torch.isfinite(m).all()), "basis of shape %s", tuple(m.shape))
    torch.manual_seed(seed)
    out = ts.compute_new_embeddings(orig, donor, orig_vocab, donor_vocab, targets, case["head"], basis, tok, opts)
    require(tuple(out.shape) == (new, do), "returned shape %s for %d tokens of size %d", tuple(out.shape), new, do)
    require(bool(torch.isfinite(out).all()), "not finite")
    require(torch.equal(orig, do0) and torch.equal(donor, dd0), "an input was modified")
    O, Dn = orig.double(), donor.double()
    if name == "mean":
        require(close(out, O.mean(dim=0).expand(new, -1), tol_of(case["dtype"]), tol_of(case["dtype"])), "not the mean")
        out += 1  # noise and scale are applied in place
    elif name == "zero":
        require(not bool(out.any()), "not zero")
    elif name in ("randn", "john_hewitt"):
        require(out.dtype == dt, "dtype %s", out.dtype)
        require(bool(out.any()), "all zero")
        if dt == torch.float32:
            many = ts.compute_new_embeddings(orig, donor, orig_vocab, {f"n{i}": i for i in range(4000)}, [f"n{i}" for i in range(4000)], case["head"],
                                             None, tok, opts).double()
            mean, cov = many.mean(dim=0), torch.cov(many.T)
            if name == "randn":
                em, ec = torch.zeros(do, dtype=D), torch.eye(do, dtype=D)
            else:
                em, c = O.mean(dim=0), O - O.mean(dim=0)
                ec = c.T @ c / len(O)
                if float(torch.linalg.eigvalsh(ec).min()) < 1e-4:  # no density: possibly a small random vector instead
                    ctx.label("degenerate")
                    if float((mean - em).abs().max()) > 0.1:
                        em, ec = torch.zeros(do, dtype=D), torch.eye(do, dtype=D) * 4e-4
            sd = torch.diagonal(ec).sqrt()
            require(bool(((mean - em).abs() <= 0.12 * sd + 1e-6).all()), "sample mean %s, expected %s", mean, em)
            require(bool(((cov - ec).abs() <= 0.2 * sd.unsqueeze(0) * sd.unsqueeze(1) + 1e-6).all()), "sample covariance is off")
            ctx.label("moments")
    else:
        ctx.interesting()
        if R is not None and name == "stb":
            want = (Dn[[donor_vocab[t] for t in targets]] - Dn.mean(dim=0)) @ R.double() + O.mean(dim=0)
            b64 = basis[0].double()
            sv = torch.linalg.svdvals(b64)
            if float(sv.min()) > 0.02 * float(sv.max()):
                require(close(out, want, 5e-3, 2e-2 * (1 + float(want.abs().max()))), "sparse token basis is off by %s under a linear map",
                        maxdiff(out, want))
                ctx.label("linear")
        if R is not None and name == "landmark_pca" and s > do + 1:
            want = Dn[[donor_vocab[t] for t in targets]] @ R.double()
            require(close(out, want, 0, 5e-3 * (1 + float(want.abs().max()))), "landmark PCA is off by %s under a rotation", maxdiff(out, want))
            ctx.label("linear")
        if name in ("omp", "common_interpolation"):
            # the coefficients found among the donor's shared tokens are applied to the same tokens of the model
            from mergekit.tokensurgeon import batch_omp, common_interp_approximate
            from mergekit.tokensurgeon.common_interpolation import DistanceMetric

            names = sorted((f"s{i}" for i in range(s)), key=lambda t: donor_vocab[t])
            dsh, osh = donor[[donor_vocab[t] for t in names]], orig[[orig_vocab[t] for t in names]]
            tg = donor[[donor_vocab[t] for t in targets]]
            if name == "omp":
                i, c = batch_omp(tg, dsh, k)
            else:
                i, c = common_interp_approximate(tg, dsh, k=k, weight_scheme=WeightingScheme(case["scheme"]),
                                                 metric=DistanceMetric.COSINE if case["cos"] else DistanceMetric.EUCLIDEAN)
            want = torch.bmm(c.double().unsqueeze(1), osh[i].double()).squeeze(1)
            require(close(out, want, tol_of(case["dtype"]), tol_of(case["dtype"]) * (1 + float(want.abs().max()))), "off by %s", maxdiff(out, want))
    ctx.interesting()


# ---------------------------------------------------------------- well-trained tokens

@st.composite
def magikarp_cases(draw):
    n = draw(st.integers(8, 40))
    return {"n": n, "pad": draw(st.integers(0, 6)), "d": draw(st.integers(2, 8)), "seed": draw(st.integers(0, 10**6)), "head": draw(st.booleans()),
            "unused": draw(st.lists(st.integers(0, n - 1), max_size=4, unique=True)), "near": draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True)),
            "short": draw(st.one_of(st.none(), st.integers(0, n - 1))), "q": draw(st.sampled_from([0.01, 0.1, 0.25])), "known": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["float32", "bfloat16"]))}


def magikarp(case, ctx):
    from mergekit.tokensurgeon import well_trained_tokens

    n, pad, d, q = case["n"], case["pad"], case["d"], case["q"]
    rows = n + pad
    dt = DTYPES[case["dtype"]]

    def matrix(seed):
        m = make((rows, d), seed, "normal", D)
        common = make((d,), seed + 1, "normal", D)
        for i in case["unused"] + list(range(n, rows)):
            m[i] = common + 0.01 * m[i]
        for i in case["near"]:
            m[i] = common * 1.01
        if case["short"] is not None:
            m[case["short"]] *= 1e-4
        return m.to(dt)

    emb, head = matrix(case["seed"]), matrix(case["seed"] + 7) if case["head"] else None
    names = [("<unused_token_%d>" if i % 2 else "reserved_special_token_%d") % i if i in case["unused"] and not case["known"] else f"w{i}"
             for i in range(n)]
    vocab = {t: i for i, t in enumerate(names)}
    known = [names[i] for i in case["unused"]] if case["known"] else None
    got = set(well_trained_tokens(vocab, emb, head, known_unused=known, quantile=q))
    unused = set(case["unused"]) | set(range(n, rows))
    sure_bad, maybe = set(unused), set()

    def mark(score, limit, above):
        eps = 2e-2 if dt != torch.float32 else 1e-5
        for i in range(rows):
            x = float(score[i])
            if abs(x - limit) <= eps * (abs(limit) + 1e-9):
                maybe.add(i)
            elif (x > limit) == above:
                sure_bad.add(i)

    if case["head"]:
        norms = emb.double().norm(dim=1)
        mark(norms, float(torch.quantile(norms, q)), False)
    if unused:
        for m in [emb] + ([head] if case["head"] else []):
            mean = m[sorted(unused)].double().mean(dim=0)
            cos = torch.nn.functional.cosine_similarity(m.double(), mean.unsqueeze(0), dim=1)
            mark(cos, max(0.5, float(torch.quantile(cos, 1 - q))), True)
    for t, i in vocab.items():
        if i in maybe and i not in unused:
            continue
        require((t in got) == (i not in sure_bad), "%s (row %d) is reported %s", t, i, "well trained" if t in got else "badly trained")
    require(got <= set(vocab), "unknown tokens reported")
    ctx.label("head" if case["head"] else "tied", "unused" if unused else "none_unused")
    ctx.interesting(bool(unused) or case["head"])


def prepare():
    import transformers

    import mergekit.scripts.tokensurgeon  # noqa: F401

    for x in ("AutoTokenizer", "PreTrainedTokenizerFast", "AutoConfig"):
        getattr(transformers, x)
    import transformers.models.llama.modeling_llama  # noqa: F401


TESTS = [
    Test("omp", omp_cases, omp, quick=1600, thorough=60000, shards=6, rule="more than one term, or a recovery guarantee applies"),
    Test("interp", interp_cases, interp, quick=1200, thorough=40000, shards=4, rule="more than one neighbour"),
    Test("pca", pca_cases, pca, quick=800, thorough=20000, shards=3, rule="more than one dimension"),
    Test("rope", rope_cases, rope, quick=800, thorough=20000, shards=3, rule="every case"),
    Test("fill", fill_cases, fill, quick=1200, thorough=40000, shards=5, rule="every case but one-piece words"),
    Test("magikarp", magikarp_cases, magikarp, quick=500, thorough=12000, shards=2, rule="an output head or unused rows are present"),
]
