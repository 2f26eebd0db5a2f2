import numpy as np
import torch
from ..core import Case
from .. import comps as C, models as M
from ..common import *

LEVEL = "exploration"
RULE = "one evaluation per (source value, width, mode, data types); values are every multiple of 1/8 step (all ties included) and their floating-point neighbours"
BOUNDS = "widths 0-12, both modes and letter cases, all source multiples of 1/8 quantisation step, neighbours of every tie, 6 output types, 3 source types, 0-5 dimensional shapes"
ASSUMPTIONS = ["the output type can hold 2^width"]
CAP = {F32: 24, F64: 30, F16: 11, I8: 6, I32: 30, I64: 30}


def run(ctx, src, width, mode, rtype=F32):
    keep = src.clone()
    g = C.S().BinGen(src, dict(width=width, mode=mode), dict(rtype=rtype))
    b = g()
    info = dict(width=width, mode=mode, rtype=dt(rtype), shape=tuple(src.shape), source_type=dt(src.dtype))
    ctx.check(tuple(b.shape) == tuple(src.shape), "shape changed to %s" % (tuple(b.shape),), **info)
    ctx.check(b.dtype == rtype, "data type is %s" % b.dtype, **info)
    ctx.check(torch.equal(keep, src), "the source tensor was modified", **info)
    ctx.check(torch.equal(g(), b), "two reads differ", **info)
    return b.detach().double().numpy(), info


def compare(ctx, got, exp, src, info):
    bad = np.argwhere(np.atleast_1d(got != exp))
    ctx.evals += got.size
    ctx.nontrivial += got.size
    ctx.outcomes.add((str(info), got.tobytes()))
    if len(bad):
        i = tuple(bad[0])
        ctx.fail("source %r quantises to %s, expected %s" % (float(np.atleast_1d(src)[i]), np.atleast_1d(got)[i], np.atleast_1d(exp)[i]), **info)


def grid(ctx, width, mode, sub=8):
    n = 2 ** width * sub
    lo = 0.0 if mode.lower() == "unipolar" else -1.0
    span = 1.0 if mode.lower() == "unipolar" else 2.0
    vals = lo + span * np.arange(n + 1) / n
    exp = np.rint((vals if span == 1 else (vals + 1) / 2) * 2 ** width)
    last = None
    for sd in (F32, F64):
        for r in ALL6:
            if width > CAP[r]:
                continue
            got, info = run(ctx, torch.tensor(vals, dtype=sd), width, mode, r)
            compare(ctx, got, exp, vals, info)
            ctx.check(got[0] == 0 and got[-1] == 2 ** width, "extremes do not map to 0 and 2^width", **info)
    back = exp / 2 ** width * span + lo
    ctx.check(bool((np.abs(back - vals) <= span / 2 ** width / 2 + 1e-12).all()), "internal")
    ctx.sample(dict(width=width, mode=mode, values=n + 1))


def neighbours(ctx, width, mode):
    """Values one representable step on either side of each tie: still nearest, and monotone."""
    n = 2 ** width
    uni = mode.lower() == "unipolar"
    for sd, ft in ((F32, np.float32), (F64, np.float64)):
        ties = ((np.arange(n) + 0.5) / n)
        vals = []
        for t in ties:
            v = ft(t if uni else 2 * t - 1)
            vals += [np.nextafter(v, ft(-9)), v, np.nextafter(v, ft(9))]
        vals = np.array(vals, dtype=ft)
        got, info = run(ctx, torch.from_numpy(vals), width, mode, F64)
        exact = (vals.astype(np.float64) if uni else (vals.astype(np.float64) + 1) / 2) * n
        exp = np.rint(exact)
        if uni:
            compare(ctx, got, exp, vals, info)
        else:
            # the addition of one may round: allow the other side of the tie
            ok = np.abs(got - exact) <= 0.5 + n * 4 * np.finfo(ft).eps
            ctx.check(bool(ok.all()), "not the nearest step", **info)
        ctx.check(bool((np.diff(got) >= 0).all()), "quantisation is not monotone", **info)
        ctx.evals += len(vals)


def shapes(ctx, width, mode):
    uni = mode == "unipolar"
    n = 2 ** width
    base = np.arange(24) / 24 * (1 if uni else 2) - (0 if uni else 1)
    base = np.rint(base * n * 4) / (n * 4)
    for shape in [(24,), (24, 1), (1, 24), (2, 12), (2, 3, 4), (1, 2, 3, 4), (2, 1, 3, 2, 2), (4, 6)]:
        src = torch.tensor(base, dtype=F32).reshape(shape)
        exp = M.quantize(base.reshape(shape), width, mode).astype(float)
        got, info = run(ctx, src, width, mode)
        compare(ctx, got, exp, base.reshape(shape), info)
        t = torch.tensor(base, dtype=F32).reshape(shape[::-1]).permute(*range(len(shape) - 1, -1, -1))
        got, info = run(ctx, t, width, mode)
        compare(ctx, got, M.quantize(t.numpy(), width, mode).astype(float), t.numpy(), info)
    for v in base:
        got, info = run(ctx, torch.tensor(v, dtype=F32), width, mode)
        compare(ctx, got, np.float64(M.quantize(v, width, mode)), v, info)
    p = torch.nn.Parameter(torch.tensor(base, dtype=F32))
    got, info = run(ctx, p, width, mode)
    compare(ctx, got, M.quantize(base, width, mode).astype(float), base, info)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        for w in range(0, 13 if q else 17):
            cs.append(Case("grid-%s-w%d" % (mode, w), grid, w, mode, 8 if q or w > 12 else 64))
            cs.append(Case("ties-%s-w%d" % (mode, w), neighbours, w, mode))
        for w in (1, 3, 8):
            cs.append(Case("shapes-%s-w%d" % (mode, w), shapes, w, mode))
        for name in (mode.upper(), mode.capitalize(), mode[:3] + mode[3:].upper()):
            cs.append(Case("letters-%s" % name, grid, 4, name))
    return cs
