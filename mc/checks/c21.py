import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, models as M, binary as B
from ..common import *
from .c20 import f32
from .c18 import combos

LEVEL = "exploration"
RULE = "one evaluation per output element; an operand grid enumerates every multiple of a quarter quantisation step including all ties and out-of-range values"
BOUNDS = "input and weight widths 2-8 (all pairs at 2-5), every quarter-step operand pair, 3 rounding modes, quantiles, power-of-two scales, 1-3 inputs, biases, repeated and changing inputs, convolution geometries; widths up to 16, up to 200 inputs"
ASSUMPTIONS = ["quantile magnitudes are not within 0.1% of a rounding boundary of their exponent", "results are representable in single precision"]


def hwcfg(wi, ww, qi=1, qw=1, rounding="round"):
    return dict(widthi=wi, quantilei=qi, widthw=ww, quantilew=qw, rounding=rounding)


def compare(ctx, got, exp, step, absum, what, cfg, x=None, w=None, rep=0):
    ctx.check(tuple(got.shape) == exp.shape, "%s output shape %s, expected %s" % (what, tuple(got.shape), exp.shape), config=cfg)
    ctx.check(got.dtype == torch.float32, "%s output type %s" % (what, got.dtype), config=cfg)
    o = L.to_np(got)
    tol = np.minimum(0.3 * step, 1e-5 * absum) + 1e-6 * np.abs(exp) + 1e-9
    bad = np.argwhere(~(np.abs(o - exp) <= tol))
    ctx.evals += o.size
    if len(bad):
        i = tuple(int(v) for v in bad[0])
        ctx.fail("%s output %s is %s, expected %s (step %g; %d of %d differ)" % (what, i, o[i], exp[i], step, len(bad), o.size), config=cfg, call=rep,
                 input=None if x is None else x[i[0]], weight=None if w is None else w[i[1]])


def run(ctx, x, w, b, hw, reps=1):
    x, w, b = f32(x), f32(w), f32(b)
    keep = dict(hw)
    r = hw["rounding"].lower()
    if not (B.unambiguous(x, hw["quantilei"], r) and B.unambiguous(w, hw["quantilew"], r)):
        ctx.notes["skipped ambiguous"] = ctx.notes.get("skipped ambiguous", 0) + 1
        return
    layer = C.K().FXPLinear(w.shape[1], w.shape[0], bias=b is not None, weight_ext=Y.grid(w), bias_ext=None if b is None else Y.grid(b), hwcfg=hw)
    exp, step = B.fxp(x, w, b, hw["widthi"], hw["widthw"], hw["quantilei"], hw["quantilew"], r)
    tx = Y.grid(x); kx = tx.clone()
    absum = np.abs(x) @ np.abs(w).T + step
    for rep in range(reps):
        compare(ctx, layer(tx), exp, step, absum, "FXPLinear", keep, x, w, rep)
    ctx.check(torch.equal(tx, kx) and hw == keep, "FXPLinear modified its arguments", config=keep)
    ctx.outcomes.add(hash(exp.tobytes()))
    ctx.nontrivial += exp.size


def grid(width, sub):
    n = 2 ** (width - 1) * sub
    return np.arange(-n, n + 1) / n


def pairs(ctx, wi, ww, r, sub):
    run(ctx, grid(wi, sub)[:, None], grid(ww, sub)[:, None], None, hwcfg(wi, ww, 1, 1, r), 2)
    # just below the power of two: the smallest power decides the step
    run(ctx, grid(wi, sub)[1:-1, None] * 0.95, grid(ww, sub)[1:-1, None] * 1.2, None, hwcfg(wi, ww, 1, 1, r))
    ctx.sample(dict(widthi=wi, widthw=ww, rounding=r, pairs=len(grid(wi, sub)) * len(grid(ww, sub))))


def scaled(ctx, wi, ww, r):
    for si in (-7, -3, 1, 5):
        for sw in (-6, 0, 2):
            for f in (1.0, 1.3, 0.8):
                for bias in (False, True):
                    b = np.linspace(-1.3, 0.9, len(grid(ww, 2))) * 2.0 ** (si + sw) if bias else None
                    run(ctx, grid(wi, 4)[:, None] * 2.0 ** si * f, grid(ww, 2)[:, None] * 2.0 ** sw * f, b, hwcfg(wi, ww, 1, 1, r))


def inputs(ctx, wi, ww, n, vals, bias):
    X = Y.all_rows(0, n, vals) * 1.0
    b = (np.arange(len(X)) - len(X) / 2) * 0.0131 if bias else None
    for r in ("round", "FLOOR", "ceil"):
        run(ctx, X, X[::-1] * 1.0, b, hwcfg(wi, ww, 1, 1, r), 2)


def quantiles(ctx, wi, ww):
    base = np.concatenate([grid(wi, 2), [3.7, -2.9, 5.1, 100.0, -77.0]])
    for qi in (1, 0.95, 0.8, 0.5, 0.2):
        for qw in (1, 0.9, 0.6, 0.1):
            for r in ("round", "floor", "ceil"):
                run(ctx, base[:, None], base[::-1, None] * 0.7, None, hwcfg(wi, ww, qi, qw, r))
                run(ctx, np.abs(base[:, None]) * 0.3, base[:, None] - 0.4, None, hwcfg(wi, ww, qi, qw, r))


def zero(ctx):
    z = np.zeros((3, 2))
    w = np.array([[0.5, -0.25], [0.75, 0.1]])
    for x, ww in ((z, w), (w, z), (z, z), (w, w)):
        for bb in (None, np.array([0.3, -0.7]) if len(ww) == 2 else np.array([0.1, 0.2, 0.3])):
            for r in ("round", "floor", "ceil"):
                run(ctx, x, ww, bb, hwcfg(4, 6, 1, 1, r))


def history(ctx):
    w = f32(grid(4, 1)[:, None])
    hw = hwcfg(5, 4)
    layer = C.K().FXPLinear(1, len(w), bias=False, weight_ext=Y.grid(w), hwcfg=hw)
    g = grid(5, 2)[:, None]
    xs = [g, g * 4, g * 0.25, np.zeros((2, 1)), g[:1], g[3:5] * 16]
    for order in itertools.permutations(range(len(xs)), 3):
        for i in order:
            exp, step = B.fxp(xs[i], w, None, 5, 4, 1, 1, "round")
            compare(ctx, layer(Y.grid(xs[i])), exp, step, np.abs(xs[i]) @ np.abs(w).T + step, "FXPLinear", dict(hw, order=order))
            ctx.nontrivial += 1


def conv(ctx, wi, ww, geoms):
    done = 0
    for Cc, hw_in, k, s, p, d, bias in geoms:
        pp, dd = Y.pair(p), Y.pair(d)
        if any(hw_in[i] + 2 * pp[i] < dd[i] * (k[i] - 1) + 1 for i in (0, 1)):
            continue
        O, N, q = 3, 2, 2 ** (wi + 1)
        x = f32((((np.arange(N * Cc * hw_in[0] * hw_in[1]) * 5 + done) % (2 * q - 1)) - (q - 1)).reshape((N, Cc) + hw_in) / q)
        w = f32((((np.arange(O * Cc * k[0] * k[1]) * 3 + 2 * done) % (2 * q - 1)) - (q - 1)).reshape((O, Cc) + k) / q)
        b = f32([0.21, -0.4, 0.03]) if bias else None
        r = ("round", "floor", "ceil")[done % 3]
        qi, qw = ((1, 1), (0.9, 1), (1, 0.8))[(done // 3) % 3]
        done += 1
        if not (B.unambiguous(x, qi, r) and B.unambiguous(w, qw, r)):
            continue
        hw = hwcfg(wi, ww, qi, qw, r)
        layer = C.K().FXPConv2d(Cc, O, k, stride=s, padding=p, dilation=d, bias=bias, weight_ext=Y.grid(w), bias_ext=None if b is None else Y.grid(b), hwcfg=hw)
        win, osz = B.conv_windows(x, k, Y.pair(s), pp, dd)
        win = win.reshape(-1, win.shape[2])
        e, step = B.fxp(win, w.reshape(O, -1), b, wi, ww, qi, qw, r, xall=x)
        ab = np.abs(win) @ np.abs(w.reshape(O, -1)).T + step
        cfg = dict(hw, kernel=k, stride=s, padding=p, dilation=d, shape=x.shape, bias=bias)
        compare(ctx, layer(Y.grid(x)), B.fold(e, N, osz), step, B.fold(ab, N, osz), "FXPConv2d", cfg)
        ctx.nontrivial += e.size
        ctx.outcomes.add(hash(e.tobytes()))
    ctx.notes["geometries"] = done


def wide(ctx, wi, ww):
    def g(w):
        n = 2 ** (w - 1)
        k = np.unique(np.concatenate([np.arange(0, 8), n - np.arange(0, 8), np.arange(0, n, max(1, n // 61)), [n // 2 - 1, n // 2, n // 2 + 1]]))
        k = np.concatenate([-k[::-1], k])
        return np.unique(np.concatenate([k, k + 0.25, k + 0.5, k - 0.5])[:, None].ravel()) / n
    for r in ("round", "floor", "ceil"):
        x, w = g(wi), g(ww)
        x, w = x[np.abs(x) <= 1], w[np.abs(w) <= 1]
        run(ctx, x[:, None], w[:, None], None, hwcfg(wi, ww, 1, 1, r), 2)
        run(ctx, x[:, None] * 8, w[:, None] / 4, None, hwcfg(wi, ww, 0.8, 1, r))
    ctx.sample(dict(widthi=wi, widthw=ww, pairs=len(x) * len(w)))


def many(ctx, n):
    for wi, ww in ((8, 8), (4, 7)):
        for N, O in ((3, 40), (70, 5), (1, 1)):
            X = (((np.arange(N * n) * 53 + 7) % 511) - 255).reshape(N, n) / 256
            W = (((np.arange(O * n) * 29 + 11) % 255) - 127).reshape(O, n) / 128
            for b in (None, np.arange(O) * 0.25 - 3):
                run(ctx, X, W, b, hwcfg(wi, ww), 2)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for wi in range(2, 9):
        for ww in range(2, 9):
            if q and (wi > 5 or ww > 5) and (wi, ww) not in ((8, 8), (8, 4), (3, 7), (6, 8)):
                continue
            for r in ("round", "floor", "ceil"):
                cs.append(Case("pairs-%d-%d-%s" % (wi, ww, r), pairs, wi, ww, r, 4 if max(wi, ww) <= 6 else 2))
    for wi, ww in ((4, 4), (3, 5), (6, 2)):
        for r in ("Round", "floor", "ceil"):
            cs.append(Case("scaled-%d-%d-%s" % (wi, ww, r), scaled, wi, ww, r))
        cs.append(Case("quantile-%d-%d" % (wi, ww), quantiles, wi, ww))
        for bias in (False, True):
            cs.append(Case("in2-%d-%d-%d" % (wi, ww, bias), inputs, wi, ww, 2, (-1.1, -0.75, -0.28125, 0.0, 0.375, 0.5, 1.0), bias))
            cs.append(Case("in3-%d-%d-%d" % (wi, ww, bias), inputs, wi, ww, 3, (-0.9, 0.0, 0.55, 1.0) if q else (-0.9, -0.25, 0.0, 0.55, 1.0), bias))
        for s in range(4):
            cs.append(Case("conv-%d-%d-%d" % (wi, ww, s), conv, wi, ww, combos()[s::(8 if q else 4)]))
    cs.append(Case("zero", zero))
    cs.append(Case("history", history))
    for wi, ww in ((10, 10), (12, 8), (9, 12), (16, 4), (3, 16)):
        cs.append(Case("wide-%d-%d" % (wi, ww), wide, wi, ww))
    for n in (17, 65, 200):
        cs.append(Case("many-%d" % n, many, n))
    return cs
