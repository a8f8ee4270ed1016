"""Independent float64 references for the merge methods' documented formulas.

Inputs are float64 tensors (exact images of the stored ones).  Where a rule is
discontinuous (sign election at a tie), the reference returns every admissible
value, so the comparison accepts whichever side rounding takes there and
nothing else."""
import math

import torch

EPS = {torch.float64: 2.0**-52, torch.float32: 2.0**-23, torch.float16: 2.0**-10, torch.bfloat16: 2.0**-7}


def linear(xs, ws, normalize):
    s = sum(w * x for w, x in zip(ws, xs))
    mag = sum(abs(w) * x.abs() for w, x in zip(ws, xs))
    d = sum(ws) if normalize else 1.0
    return s / d, mag / abs(d)


def keep_magnitude(delta, density):
    """0/1 mask keeping the int(density*n) largest; magnitudes must be distinct at the cut."""
    n = delta.numel()
    if density >= 1:
        return torch.ones_like(delta)
    k = int(density * n)
    order = torch.argsort(delta.abs().reshape(-1), descending=True)
    m = torch.zeros(n, dtype=torch.float64)
    m[order[:k]] = 1
    return m.reshape(delta.shape)


def keep_outliers(delta, density, gamma):
    n = delta.numel()
    if density >= 1:
        return torch.ones_like(delta)
    target = int(density * n)
    top = min(int(gamma * n), n - target)
    order = torch.argsort(delta.abs().reshape(-1), descending=True)
    m = torch.zeros(n, dtype=torch.float64)
    m[order[top:top + target]] = 1
    return m.reshape(delta.shape)


def l1_rescale(delta, mask):
    before, after = delta.abs().sum(), (delta * mask).abs().sum()
    if before < 1e-7 or after < 1e-7:
        return delta * mask
    return delta * mask * (before / after)


def combine(base, deltas, ws, *, consensus, normalize, lam, tol):
    """base + lambda * (weighted, sign-elected, normalized sum); returns
    (list of admissible outputs, error scale, well-conditioned mask)."""
    wd = [w * d for w, d in zip(ws, deltas)]
    mag = sum(x.abs() for x in wd)
    if not consensus:
        div = sum(ws)
        if abs(div) < 1e-8:
            div = 1.0
        div = div if normalize else 1.0
        out = base + lam * sum(wd) / div
        return [out], base.abs() + abs(lam) * mag / abs(div), torch.ones_like(base, dtype=torch.bool)
    total = sum(wd)
    outs, scale, ok = [], base.abs(), torch.ones_like(base, dtype=torch.bool)
    both = []
    for sign in (1, -1):
        num = torch.zeros_like(base)
        div = torch.zeros_like(base)
        absw = torch.zeros_like(base)
        for w, x in zip(ws, wd):
            m = (torch.sign(x) == sign).double()
            num += x * m
            div += w * m
            absw += abs(w) * m
        ok &= ~((div.abs() < 1e-3 * absw) & (div != 0))
        div = torch.where(div == 0, torch.ones_like(div), div)
        if not normalize:
            div = torch.ones_like(div)
        both.append(base + lam * num / div)
        scale = torch.maximum(scale, base.abs() + abs(lam) * mag / div.abs())
    tie = total.abs() <= tol * mag
    plus = torch.where((total >= 0) | tie, both[0], both[1])
    minus = torch.where((total <= 0) | tie, both[1], both[0])
    outs = [plus, minus]
    return outs, scale, ok


def slerp_point(t, a, b):
    """Great-circle combination with the angle between the directions."""
    na, nb = a.norm(), b.norm()
    c = float((a * b).sum() / (na * nb))
    th = math.acos(max(-1.0, min(1.0, c)))
    return (math.sin((1 - t) * th) * a + math.sin(t * th) * b) / math.sin(th), th


def lerp(t, a, b):
    return (1 - t) * a + t * b


def cosine(a, b):
    na, nb = float(a.norm()), float(b.norm())
    if na == 0 or nb == 0:
        return None
    return float((a * b).sum()) / (na * nb)


def multislerp(xs, ws, base, normalize):
    """Tangent-space barycenter of the directions at their weighted mean."""
    ys = [x - base for x in xs] if base is not None else xs
    if normalize:
        s = sum(ws)
        ws = [w / s for w in ws]
    us = [y / y.norm() for y in ys]
    mean = sum(w * u for w, u in zip(ws, us))
    mn = float(mean.norm())
    m = mean / mn
    tang = sum(w * (u - (u * m).sum() * m) for w, u in zip(ws, us))
    tn = float(tang.norm())
    r = m * math.cos(tn) + (tang * (math.sin(tn) / tn) if tn > 0 else 0)
    r = r * sum(w * float(y.norm()) for w, y in zip(ws, ys))
    return (r + base if base is not None else r), mn


def karcher(xs, iters=10000):
    """Karcher mean direction (run to convergence) times the mean norm, and the largest angle to it."""
    norms = [float(x.norm()) for x in xs]
    us = [x / n for x, n in zip(xs, norms) if n > 1e-5]
    s = sum(norms) / len(norms)
    u = sum(us) / len(us)
    u = u / u.norm()
    for _ in range(iters):
        T = torch.zeros_like(u)
        for v in us:
            d = float((u * v).sum().clamp(-1, 1))
            w = v - d * u
            wn = float(w.norm())
            if wn < 1e-14:
                continue
            T += math.atan2(wn, d) * w / wn / len(us)
        tn = float(T.norm())
        if tn < 1e-13:
            break
        u = math.cos(tn) * u + math.sin(tn) * T / tn
        u = u / u.norm()
    far = max(math.acos(max(-1.0, min(1.0, float((u * v).sum())))) for v in us)
    return s * u, far


def model_stock(base, ws, filter_wise):
    """Interpolation by the mean pairwise cosine; also returns the smallest |denominator| and norm product."""
    shape = base.shape
    if filter_wise:
        b = base.reshape(1, -1) if base.dim() == 1 else base
    else:
        b = base.reshape(1, -1)
    vs = [w.reshape(b.shape) for w in ws]
    off = [v - b for v in vs]
    n = len(vs)
    cs, small = [], math.inf
    for i in range(n):
        for j in range(i + 1, n):
            p = off[i].norm(dim=-1) * off[j].norm(dim=-1)
            nz = p[p > 0]
            if nz.numel():
                small = min(small, float(nz.min()))
            cs.append(torch.where(p > 0, (off[i] * off[j]).sum(-1) / p.clamp(min=1e-300), torch.zeros_like(p)))
    c = sum(cs) / len(cs)
    den = 1 + (n - 1) * c
    t = (n * c / den).unsqueeze(-1)
    avg = sum(vs) / n
    return (t * avg + (1 - t) * b).reshape(shape), float(den.abs().min()), small, t


def nearswap(base, x, t):
    d = (base - x).abs()
    w = torch.where(d > 0, (t / d.clamp(min=1e-300)).clamp(0, 1), torch.full_like(d, 1.0 if t > 0 else 0.0))
    return w * x + (1 - w) * base


def ram(base, xs, eps, plus=None):
    ds = torch.stack([(x - base).reshape(-1) for x in xs])
    act = ds.abs() > eps
    cnt = act.sum(0)
    out = torch.zeros_like(ds[0])
    for i in range(len(xs)):
        uniq = act[i] & (cnt == 1)
        shared = act[i] & (cnt > 1)
        lam = 1.0
        if plus is not None:
            r, alpha = plus
            nu, ns = int(uniq.sum()), int(shared.sum())
            if nu:
                lam = 1 + r * min(max(ns / nu, 0.0), alpha)
        out = out + ds[i] * uniq * lam + torch.where(shared, ds[i] / cnt.clamp(min=1), torch.zeros_like(ds[i]))
    return base + out.reshape(base.shape), ds, act


def sce(base, xs, topk, tol):
    """Returns admissible outputs, scale, ok mask; variances must be distinct at the cut."""
    ds = torch.stack([x - base for x in xs])
    if topk < 1:
        var = ds.var(dim=0, unbiased=False)
        k = int(int((var != 0).sum()) * topk) if topk > 0 else 0
        m = torch.zeros(var.numel(), dtype=torch.float64)
        m[torch.argsort(var.reshape(-1), descending=True)[:k]] = 1
        ds = ds * m.reshape(var.shape)
    sq = [float((d**2).mean()) for d in ds]
    tot = sum(sq)
    n = len(xs)
    ws = [1.0 / n] * n if tot < 1e-6 else [s / tot for s in sq]
    total = ds.sum(0)
    mag = ds.abs().sum(0)
    both, scale = [], base.abs()
    for sign in (1, -1):
        num, div = torch.zeros_like(base), torch.zeros_like(base)
        for w, d in zip(ws, ds):
            mm = (torch.sign(d) == sign).double()
            num += w * d * mm
            div += w * mm
        both.append(base + num / div.clamp(min=1e-6))
    tie = total.abs() <= tol * mag
    outs = [torch.where((total >= 0) | tie, both[0], both[1]), torch.where((total <= 0) | tie, both[1], both[0])]
    return outs, base.abs() + mag, tot


def arcee(base, x):
    """Importance scores and the dynamic threshold."""
    diff = (x - base).abs()
    p = torch.softmax(x, dim=-1) + 1e-8
    q = torch.softmax(base, dim=-1) + 1e-8
    kl = (p * torch.log(p / q)).sum(-1, keepdim=True)
    imp = diff * kl
    s, _ = torch.sort(imp.reshape(-1))
    n = s.numel()

    def quant(f):
        return float(s[int(f * (n - 1))])

    thr = quant(0.5) + 1.5 * (quant(0.75) - quant(0.25))
    return imp, thr
