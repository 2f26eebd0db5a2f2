import contextlib
import io
import itertools
import math
import re
import numpy as np
import torch
from ..core import Case
from .. import comps as C
from ..common import *

LEVEL = "exploration"
BOUNDS = ("error reports: all pairs/triples of source values in steps of 1/4 x all bit histories of 1-3 cycles, both modes, scales 1 and 2, 1-3 dimensional shapes, all four switch settings; "
          "outlier reports: all tensors of 1-4 elements over 9 values around the bounds, 0-4 dimensional shapes, ramps of up to 1000 elements")
ASSUMPTIONS = ["reports print labelled numbers with six decimals, compared up to the printed precision", "deviations are sample deviations (undefined for single elements)", "undefined relative errors (0/0) count as zero"]
NUM = r"(-?\d+\.\d+|-?inf|-?nan)"


def printed(fn, *a, **k):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        r = fn(*a, **k)
    return b.getvalue(), r


def close(a, b, tol=2e-6):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b) or abs(b) > 1e30:
        return a == b or (abs(b) > 1e30 and abs(a - b) <= 1e-4 * abs(b))
    return abs(a - b) <= tol + 2e-6 * abs(b)


def fields(line):
    """label -> numbers following it (labels are words ending in a colon or comma before numbers)."""
    out = {}
    for m in re.finditer(r"([A-Za-z][A-Za-z ]*?)\s*[:,]\s*(?=" + NUM + ")((?:\\s*,?\\s*" + NUM + ")+)", line):
        key = " ".join(m.group(1).split()).lower()
        out[key] = [float(x) for x in re.findall(NUM, m.group(3))]
    return out


def stats(v, rmse):
    v = np.asarray(v, dtype=np.float64).reshape(-1)
    r = dict(range=[v.min(), v.max()], std=[v.std(ddof=1) if v.size > 1 else float("nan")], mean=[v.mean()])
    if rmse:
        r["rmse"] = [math.sqrt((v ** 2).mean())]
    return r


def judge(ctx, line, title, want, cfg):
    f = fields(line)
    key = [k for k in f if k.startswith(title)]
    ctx.check(len(key) == 1, "the report has no '%s' line where expected" % title, line=line, **cfg)
    for name, w in want.items():
        got = f.get(key[0] if name == "range" else name)
        ctx.check(got is not None and len(got) == len(w) and all(close(a, b) for a, b in zip(got, w)), "%s: %s reported wrongly" % (title, name), reported=got, exact=w, line=line, **cfg)


def errors(ctx, mode, scale, n, T, shape):
    import UnarySim.metric.metric as MM
    rep = C.K().progerror_report
    lo = 0 if mode == "unipolar" else -4
    grid = [v / 4 for v in range(lo, 5)]
    for src in itertools.product(grid, repeat=n):
        for bits in itertools.product((0, 1), repeat=n * T):
            pe = MM.ProgError(torch.tensor(src).reshape(shape), dict(scale=scale, mode=mode))
            B = np.array(bits).reshape(T, n)
            for t in range(T):
                pe.Monitor(torch.tensor(B[t], dtype=F32).reshape(shape))
            val = B.mean(0) if mode == "unipolar" else 2 * B.mean(0) - 1
            ref = np.clip(np.array(src) / scale, 0 if mode == "unipolar" else -1, 1)
            err = val - ref
            with np.errstate(all="ignore"):
                rel = np.nan_to_num((err.astype(np.float32) / val.astype(np.float32)), posinf=float(np.finfo(np.float32).max), neginf=float(np.finfo(np.float32).min))
            for rv, rr in itertools.product((False, True), repeat=2):
                cfg = dict(mode=mode, scale=scale, source=src, bits=B, report_value=rv, report_relative=rr)
                out, ret = printed(rep, pe, "signal", report_value=rv, report_relative=rr)
                lines = [l for l in out.split("\n") if l.strip()]
                ctx.check(len(lines) == 1 + 2 * rv + rr and all(l.startswith("signal") for l in lines), "unexpected lines in the report", report=out, **cfg)
                if rv:
                    judge(ctx, lines[0], "binary value range", stats(ref, False), cfg)
                    judge(ctx, lines[1], "unary value range", stats(val, False), cfg)
                judge(ctx, lines[2 * rv], "absolute error range", stats(err, True), cfg)
                if rr and np.isfinite(rel).all() and np.abs(rel).max() < 1e30:
                    judge(ctx, lines[-1], "relative error range", stats(rel, True), cfg)
                ctx.nontrivial += 1
            ctx.outcomes.add((tuple(ref), tuple(val)))
    # the report leaves the metric alone
    a, b = pe()
    ctx.check(torch.allclose(a.double().reshape(-1), torch.tensor(val).double(), atol=1e-6) and torch.allclose(b.double().reshape(-1), torch.tensor(err).double(), atol=1e-6), "reporting changed the metric", mode=mode)
    ctx.sample(dict(mode=mode, scale=scale, sources=len(grid) ** n, histories=2 ** (n * T)))


def one_outlier(ctx, t, cfg):
    out, ret = printed(C.K().tensor_unary_outlier, t, "weights")
    lines = [l for l in out.split("\n") if l.strip()]
    ctx.check(len(lines) == 1 and lines[0].startswith("weights"), "unexpected lines in the outlier report", report=out, **cfg)
    f = fields(lines[0])
    v = t.detach().double().reshape(-1).numpy()
    want = dict(min=v.min(), max=v.max(), outlier=100.0 * ((v > 1) | (v < -1)).mean())
    for k, w in want.items():
        ctx.check(k in f and len(f[k]) == 1 and close(f[k][0], w, 2e-5 if k == "outlier" else 2e-6), "%s reported wrongly" % k, reported=f.get(k), exact=float(w), line=lines[0], **cfg)
    ctx.nontrivial += 1


def outliers(ctx, n):
    eps = 2.0 ** -20
    A = [-2.5, -1 - eps, -1.0, -1 + eps, 0.0, 0.5, 1 - eps, 1.0, 1 + eps]
    for v in itertools.product(A, repeat=n):
        one_outlier(ctx, torch.tensor(v), dict(tensor=v))
        ctx.outcomes.add(v)
    ctx.sample(dict(alphabet=A, length=n))


def outlier_shapes(ctx):
    for shape in ((), (1,), (6,), (2, 3), (3, 2), (1, 6, 1), (2, 1, 3), (2, 2, 2, 2), (1000,), (20, 30)):
        m = int(np.prod(shape))
        for k in range(0, m + 1, max(1, m // 12)):
            for s in (1, -1):
                t = torch.zeros(m)
                t[:k] = 3.0 * s
                for d in (F32, F64):
                    for x in (t.to(d).reshape(shape), torch.nn.Parameter(t.to(d).reshape(shape))):
                        one_outlier(ctx, x, dict(shape=shape, outliers=k))
                ctx.outcomes.add((shape, k, s))


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        for scale in (1, 2):
            for n, T, shape in ((1, 3, (1,)), (2, 2, (2,)), (2, 1, (1, 2)), (2, 2, (2, 1, 1))) + (() if q else ((3, 1, (3,)), (2, 3, (2,)), (3, 2, (3, 1)))):
                cs.append(Case("error-%s-%d-%d-%d-%dd" % (mode, scale, n, T, len(shape)), errors, mode, scale, n, T, shape))
    for n in (1, 2, 3) + (() if q else (4,)):
        cs.append(Case("outlier-%d" % n, outliers, n))
    cs.append(Case("outlier-shapes", outlier_shapes))
    return cs
