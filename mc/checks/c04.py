import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C
from ..common import *

LEVEL = "exploration"
RULE = "one evaluation per (tensor, quantile); tensors are all multisets or tuples over a small value alphabet plus structured large tensors"
BOUNDS = "all tensors of 1-5 elements over 7 values x 9 quantiles; 1-4 dimensional shapes; all orders of 6 distinct values; ramps of up to 10^4 elements; float32 and float64"
ASSUMPTIONS = ["the larger quantile magnitude is not zero", "quantiles interpolate linearly between order statistics"]

Q = [1, 1.0, 0.95, 0.9, 0.75, 0.5, 0.3, 0.125, 0.01]


def quant(a, p):
    """Linear interpolation between order statistics; a: [N, n] sorted."""
    n = a.shape[1]
    pos = p * (n - 1)
    i = min(int(np.floor(pos + 1e-12)), n - 1)
    j = min(i + 1, n - 1)
    f = max(pos - i, 0.0)
    return a[:, i] + (a[:, j] - a[:, i]) * f


def one(ctx, raw, q, tol=2e-6):
    keep = raw.clone()
    hw = dict(quantile=q)
    g = C.S().RawScale(hw)
    out = g(raw)
    info = dict(quantile=q, shape=tuple(raw.shape), raw=raw.flatten()[:16].tolist())
    ctx.check(hw == dict(quantile=q), "configuration dictionary changed", **info)
    ctx.check(torch.equal(keep, raw), "the raw tensor was modified", **info)
    ctx.check(tuple(out.shape) == tuple(raw.shape) and out.dtype == raw.dtype, "shape or type changed", **info)
    r = raw.double().flatten().numpy()
    o = out.double().flatten().numpy()
    s = np.sort(r)[None]
    lo, hi = quant(s, 0.5 - q / 2)[0], quant(s, 0.5 + q / 2)[0]
    sc = max(abs(lo), abs(hi))
    exp = np.clip(r, lo, hi) / sc
    ctx.evals += r.size
    ctx.nontrivial += 1
    ctx.outcomes.add(o.tobytes())
    if not np.isfinite(o).all() or np.abs(o - exp).max() > tol:
        ctx.fail("scaled values are wrong", observed=o[:16].tolist(), expected=exp[:16].tolist(), **info)
    ctx.check(np.abs(o).max() <= 1.0 + 1e-7, "output leaves [-1,1]", **info)
    order = np.argsort(r, kind="stable")
    ctx.check(bool((np.diff(o[order]) >= 0).all()), "order is not kept", **info)
    if q == 1:
        ctx.check(bool((np.sign(o) == np.sign(r)).all()), "signs are not kept", **info)
        ctx.check(np.abs(o).max() >= 1 - 1e-7, "the largest magnitude is not mapped to 1", **info)
    out2 = g(raw)
    ctx.check(torch.equal(out, out2), "a second call differs", **info)


def scale_of(raw, q):
    s = np.sort(raw.double().flatten().numpy())[None]
    return max(abs(quant(s, 0.5 - q / 2)[0]), abs(quant(s, 0.5 + q / 2)[0]))


def small(ctx, n, alpha, q, dtype):
    for tup in itertools.product(alpha, repeat=n):
        raw = torch.tensor(tup, dtype=dtype)
        if scale_of(raw, q) < 1e-6:
            continue
        one(ctx, raw, q)
    ctx.sample(dict(elements=n, alphabet=alpha, quantile=q))


def perms(ctx, vals, q):
    for p in itertools.permutations(vals):
        for shape in ((6,), (2, 3), (3, 2), (1, 6), (2, 1, 3)):
            one(ctx, torch.tensor(p, dtype=F32).reshape(shape), q)


def big(ctx, n, q):
    for f in (lambda x: x, lambda x: -x, lambda x: x * 7 + 3, lambda x: x ** 3 - 0.2, lambda x: np.abs(x) * 1e-3, lambda x: x * 1e4, lambda x: np.sin(40 * x)):
        v = f(np.linspace(-1, 1, n))
        for d in (F32, F64):
            raw = torch.tensor(v, dtype=d)
            if scale_of(raw, q) < 1e-9:
                continue
            one(ctx, raw, q, tol=1e-4 if d == F32 else 1e-6)


def noncontig(ctx, q):
    v = torch.linspace(-3, 2, 24).reshape(4, 6)
    one(ctx, v.t(), q)
    one(ctx, v[:, ::2], q)
    one(ctx, v.reshape(2, 2, 2, 3).permute(3, 0, 2, 1), q)
    one(ctx, torch.tensor(5.0), q)
    one(ctx, torch.tensor(-0.25), q)


def cases(tier):
    qk = tier != "thorough"
    cs = []
    A = (-4.0, -1.0, -0.25, 0.0, 0.5, 1.0, 3.0)
    for i, q in enumerate(Q):
        for n in (1, 2, 3):
            cs.append(Case("all-n%d-q%d" % (n, i), small, n, A, q, F32))
        cs.append(Case("all-n4-q%d" % i, small, 4, A if not qk else (-3.0, -0.5, 0.0, 0.25, 2.0), q, F64))
        cs.append(Case("all-n5-q%d" % i, small, 5, (-2.0, 0.0, 0.5, 1.0) if qk else (-4.0, -0.5, 0.0, 0.25, 2.0), q, F32))
        cs.append(Case("perms-q%d" % i, perms, (-2.5, -1.0, -0.125, 0.25, 0.75, 4.0) , q))
        for n in (2, 3, 10, 101, 1000, 10000):
            cs.append(Case("big-%d-q%d" % (n, i), big, n, q))
        cs.append(Case("layout-q%d" % i, noncontig, q))
    return cs
