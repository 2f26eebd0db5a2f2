import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, models as M, binary as B
from ..common import *
from .c18 import combos

LEVEL = "exploration"
RULE = "one evaluation per output element; fixed-point grids enumerate every half-step operand pair, floating-point grids every mantissa of the format (or every digit pattern for float32)"
BOUNDS = ("fixed point: widths 2-8 and digit widths 1-6, every operand, every cycle limit 1..2^t+1 at small widths, both temporal operands; floating point: every bfloat16 and float16 mantissa x exponents, "
          "all digit patterns of float32, digit widths 1-8; mixed formats; roundings, quantiles, scales, biases, convolution geometries; widths up to 16, up to 200 inputs")
ASSUMPTIONS = ["floating-point operands have the data type of their format", "in mixed-format layers the fixed-point operand is the temporal one",
               "quantile magnitudes are not within 0.1% of a rounding boundary of their exponent; for convolution the magnitude is that of the unfolded windows"]
DT = dict(bfloat16=torch.bfloat16, float16=torch.float16, float32=torch.float32)
EPS = {torch.bfloat16: 2.0 ** -8, torch.float16: 2.0 ** -11, torch.float32: 2.0 ** -24}


def hwcfg(temporal="i", t=4, fi="fxp", wi=8, fw="fxp", ww=8, cycle=None, qi=1, qw=1, rounding="round"):
    return dict(temporal=temporal, widtht=t, formati=fi, widthi=wi, quantilei=qi, formatw=fw, widthw=ww, quantilew=qw, cycle=cycle,
                rounding=rounding, signmag=True)


def cast(a, d):
    return None if a is None else torch.tensor(np.asarray(a, dtype=np.float64)).to(d)


def np64(t):
    return None if t is None else t.detach().double().numpy()


def compare(ctx, got, exp, absum, eps, what, cfg, shape=None, dtype=None, x=None, w=None, n=1):
    ctx.check(tuple(got.shape) == exp.shape, "%s output shape %s, expected %s" % (what, tuple(got.shape), exp.shape), config=cfg)
    if dtype is not None:
        ctx.check(got.dtype == dtype, "%s output type %s" % (what, got.dtype), config=cfg)
    o = L.to_np(got)
    # one rounding of each operand/product/sum to the working type
    tol = eps * (n + 2) * (absum + np.abs(exp)) * 1.01
    bad = np.argwhere(~(np.abs(o - exp) <= tol))
    ctx.evals += o.size
    if len(bad):
        i = tuple(int(v) for v in bad[0])
        ctx.fail("%s output %s is %s, expected %s (%d of %d differ)" % (what, i, o[i], exp[i], len(bad), o.size), config=cfg,
                 input=None if x is None else x[i[0]], weight=None if w is None else w[i[1]])


def clear(hw, x, w):
    r = hw["rounding"].lower()
    fi, fw = hw["formati"] == "fxp", hw["formatw"] == "fxp"
    return (not fi or B.unambiguous(x, hw["quantilei"], r)) and (not fw or B.unambiguous(w, hw["quantilew"], r))


def run(ctx, x, w, b, hw, dx=F32, dw=F32, reps=1, exact=None):
    tx, tw, tb = cast(x, dx), cast(w, dw), cast(b, dw)
    x, w, b = np64(tx), np64(tw), np64(tb)
    if not clear(hw, x, w):
        ctx.notes["skipped ambiguous"] = ctx.notes.get("skipped ambiguous", 0) + 1
        return
    keep, kx = dict(hw), tx.clone()
    layer = C.K().TLUTLinear(w.shape[1], w.shape[0], bias=b is not None, weight_ext=tw, bias_ext=tb, hwcfg=hw)
    exp, absum, nx, nw = B.tlut(x, w, b, hw)
    if b is not None:
        absum = absum + np.abs(b)
    eps = max(EPS[dx], EPS[dw])
    for _ in range(reps):
        compare(ctx, layer(tx), exp, absum, eps, "TLUTLinear", keep, dtype=dw if dx == dw else None, x=x, w=w, n=x.shape[1])
    ctx.check(torch.equal(tx, kx) and hw == keep, "TLUTLinear modified its arguments", config=keep)
    ctx.outcomes.add(hash(exp.tobytes()))
    ctx.nontrivial += exp.size
    return nx, nw


def fxp_pairs(ctx, temporal, wi, ww, t, cycles, rounding):
    g = lambda w: np.arange(-2 ** w, 2 ** w + 1) / 2 ** w      # half steps
    for cyc in cycles:
        for f in (1.0, 0.9, 1.3):
            run(ctx, (g(wi) * f)[:, None], g(ww)[:, None], None, hwcfg(temporal, t, "fxp", wi, "fxp", ww, cyc, 1, 1, rounding))
    ctx.sample(dict(temporal=temporal, widthi=wi, widthw=ww, widtht=t, pairs=len(g(wi)) * len(g(ww))))


def fxp_more(ctx, temporal, t, cycle):
    base = np.concatenate([np.arange(-16, 17) / 16, [3.7, -2.9, 100.0]])
    for qi in (1, 0.9, 0.5):
        for qw in (1, 0.8):
            for r in ("round", "Floor", "ceil"):
                run(ctx, base[:, None], base[::-1, None] * 0.7, None, hwcfg(temporal, t, "fxp", 5, "fxp", 4, cycle, qi, qw, r))
    for n, vals in ((2, (-1.0, -0.77, 0.0, 0.33, 0.5)), (3, (-0.9, 0.0, 1.0))):
        X = Y.all_rows(0, n, vals) * 1.0
        for bias in (False, True):
            b = (np.arange(len(X)) - 5) * 0.0131 if bias else None
            for s in (0, -4, 3):
                run(ctx, X * 2.0 ** s, X[::-1] * 2.0 ** -s, b, hwcfg(temporal, t, "FXP".lower(), 6, "fxp", 7, cycle), reps=2)
    z = np.zeros((3, 2))
    w = np.array([[0.5, -0.25], [0.75, 0.1]])
    for x, ww in ((z, w), (w, z), (z, z)):
        for r in ("round", "floor", "ceil"):
            run(ctx, x, ww, None, hwcfg(temporal, t, "fxp", 4, "fxp", 4, cycle, 1, 1, r))
            run(ctx, x, ww, np.arange(len(ww)) - 0.3, hwcfg(temporal, t, "fxp", 4, "fxp", 4, cycle, 1, 1, r))


def mantissas(fmt):
    w = B.FPW[fmt]
    if w <= 11:
        return np.arange(2 ** (w - 1), 2 ** w) / 2.0 ** w
    # float32: every nibble-like pattern in three digits of 8 bits
    d = np.array([0, 1, 2, 15, 16, 85, 127, 128, 170, 254, 255])
    top = d[d >= 128]
    v = (top[:, None, None] * 65536 + d[None, :, None] * 256 + d[None, None, :]).ravel()
    return v / 2.0 ** 24


def fp_all(ctx, temporal, fmt, t, cycles, other):
    m = mantissas(fmt)
    e = np.array([-6, -1, 0, 1, 5])
    vals = np.concatenate([[0.0], (m[:, None] * 2.0 ** e[None, :]).ravel()])
    vals = np.concatenate([vals, -vals])
    W = np.array([[1.0], [-0.5], [2.0]])
    for cyc in cycles:
        hw = hwcfg(temporal, t, fmt, 8, other, 8, cyc) if temporal.lower() in ("i", "input") else hwcfg(temporal, t, other, 8, fmt, 8, cyc)
        a, bq = (vals[:, None], W) if temporal.lower() in ("i", "input") else (W, vals[:, None])
        # a power-of-two partner: the product is exact, every digit is visible
        tx, tw = cast(a, DT[fmt]), cast(bq, DT[fmt])
        layer = C.K().TLUTLinear(1, len(bq), bias=False, weight_ext=tw, hwcfg=hw)
        exp, absum, _, _ = B.tlut(np64(tx), np64(tw), None, hw)
        got = layer(tx)
        compare(ctx, got, exp, absum, 0.0, "TLUTLinear", hw, dtype=DT[fmt], x=np64(tx), w=np64(tw))
        ctx.nontrivial += exp.size
        ctx.outcomes.add(hash(exp.tobytes()))
    ctx.sample(dict(temporal=temporal, format=fmt, widtht=t, values=len(vals)))


def fp_products(ctx, temporal, fmt, t, cycle):
    X = np.array(list(itertools.product((-1.25, -0.3, 0.0, 0.7, 3.1), repeat=3)))
    for bias in (False, True):
        b = np.linspace(-1, 1, 25) if bias else None
        run(ctx, X, X[::5] * 0.4, b, hwcfg(temporal, t, fmt, 8, fmt, 8, cycle), DT[fmt], DT[fmt], reps=2)


def mixed(ctx, temporal, fmt, width, t, cycles):
    g = np.arange(-2 ** width, 2 ** width + 1) / 2 ** width
    W = np.array([[1.0], [-0.5], [0.375], [-1.75]])
    for cyc in cycles:
        for f in (1.0, 0.9):
            for r in ("round", "floor", "ceil"):
                for d in sorted({F32, DT[fmt]}, key=str):
                    a = (g * f)[:, None]
                    if temporal.lower() in ("i", "input"):
                        run(ctx, a, W, None, hwcfg(temporal, t, "fxp", width, fmt, 8, cyc, 1, 1, r), d, d)
                    else:
                        run(ctx, W, a, np.linspace(-1, 1, len(a)), hwcfg(temporal, t, fmt, 8, "fxp", width, cyc, 1, 1, r), d, d)


def untouched(ctx, fmt):
    """Without early termination a floating-point layer is the ordinary one."""
    X = np.array(list(itertools.product((-1.25, -0.3, 0.0, 0.7, 3.1), repeat=2)))
    for temporal in ("i", "w", "Input", "WEIGHT"):
        for t in (1, 2, 3, 4, 5, 7, 8):
            for cyc in (None, 2 ** t, 2 ** t + 5):
                run(ctx, X, X[::3], None, hwcfg(temporal, t, fmt, 8, fmt, 8, cyc), DT[fmt], DT[fmt])


def conv(ctx, temporal, fi, fw, t, geoms):
    done = 0
    d = F32
    if fi != "fxp" and fw != "fxp":
        d = DT[fi]
    for Cc, hw_in, k, s, p, dil, bias in geoms:
        pp, dd = Y.pair(p), Y.pair(dil)
        if any(hw_in[i] + 2 * pp[i] < dd[i] * (k[i] - 1) + 1 for i in (0, 1)):
            continue
        O, N, q = 3, 2, 64
        tx = cast((((np.arange(N * Cc * hw_in[0] * hw_in[1]) * 5 + done) % (2 * q - 1)) - (q - 1)).reshape((N, Cc) + hw_in) / q, d)
        tw = cast((((np.arange(O * Cc * k[0] * k[1]) * 3 + 2 * done) % (2 * q - 1)) - (q - 1)).reshape((O, Cc) + k) / q, d)
        tb = cast([0.21, -0.4, 0.03], d) if bias else None
        x, w, b = np64(tx), np64(tw), np64(tb)
        r = ("round", "floor", "ceil")[done % 3]
        cyc = (None, 2 ** t - 1, max(1, 2 ** (t - 1)))[(done // 2) % 3]
        qi, qw = ((1, 1), (0.9, 1), (1, 0.8))[(done // 3) % 3]
        done += 1
        hw = hwcfg(temporal, t, fi, 6, fw, 5, cyc, qi, qw, r)
        win, osz = B.conv_windows(x, k, Y.pair(s), pp, dd)
        win = win.reshape(-1, win.shape[2])
        wf = w.reshape(O, -1)
        if not clear(hw, win, wf):
            continue
        layer = C.K().TLUTConv2d(Cc, O, k, stride=s, padding=p, dilation=dil, bias=bias, weight_ext=tw, bias_ext=tb, hwcfg=hw)
        e, ab, _, _ = B.tlut(win, wf, b, hw)
        if b is not None:
            ab = ab + np.abs(b)
        cfg = dict(hw, kernel=k, stride=s, padding=p, dilation=dil, shape=x.shape, bias=bias)
        compare(ctx, layer(tx), B.fold(e, N, osz), B.fold(ab, N, osz), EPS[d], "TLUTConv2d", cfg, dtype=d, n=win.shape[1])
        ctx.nontrivial += e.size
        ctx.outcomes.add(hash(e.tobytes()))
    ctx.notes["geometries"] = done


def wide(ctx, temporal, wi, ww, t):
    def g(w):
        n = 2 ** (w - 1)
        k = np.unique(np.concatenate([np.arange(0, 8), n - np.arange(0, 8), np.arange(0, n, max(1, n // 61)), [n // 2 - 1, n // 2, n // 2 + 1]]))
        k = np.concatenate([-k[::-1], k])
        return np.unique(np.concatenate([k, k + 0.5, k - 0.5])) / n
    for cyc in (None, 2 ** t - 1, 2 ** (t - 1), 2, 1):
        for f in (1.0, 1.3):
            run(ctx, (g(wi) * f)[:, None], g(ww)[:, None], None, hwcfg(temporal, t, "fxp", wi, "fxp", ww, cyc))
    ctx.sample(dict(temporal=temporal, widthi=wi, widthw=ww, widtht=t))


def many(ctx, temporal, n):
    for fmt in ("fxp", "float32"):
        for N, O in ((3, 40), (70, 5), (1, 1)):
            X = (((np.arange(N * n) * 53 + 7) % 511) - 255).reshape(N, n) / 256
            W = (((np.arange(O * n) * 29 + 11) % 255) - 127).reshape(O, n) / 128
            for b in (None, np.arange(O) * 0.25 - 3):
                for cyc in (None, 5):
                    run(ctx, X, W, b, hwcfg(temporal, 3, fmt, 8, fmt, 7, cyc), reps=2)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for temporal in ("i", "w"):
        for wi, ww in ((2, 3), (3, 3), (4, 4), (5, 3), (4, 6), (8, 8), (7, 5)):
            for t in (1, 2, 3, 4, 6):
                small = max(wi, ww) <= 4
                if q and not small and t in (1, 6):
                    continue
                cyc = [None] + (list(range(1, 2 ** t + 2)) if small and t <= 3 else [2 ** t - 1, 2 ** (t - 1), 1])
                for r in ("round", "floor", "ceil") if small or not q else ("round",):
                    cs.append(Case("fxp-%s-%d-%d-t%d-%s" % (temporal, wi, ww, t, r), fxp_pairs, temporal, wi, ww, t, cyc, r))
        for t in (2, 3, 4):
            for c in (None, 3):
                cs.append(Case("fxpmore-%s-t%d-%s" % (temporal, t, c), fxp_more, temporal, t, c))
        for fmt in ("bfloat16", "float16", "float32"):
            for t in (1, 2, 3, 4, 5, 8):
                cs.append(Case("fp-%s-%s-t%d" % (temporal, fmt, t), fp_all, {"i": "Input", "w": "weight"}[temporal] if t == 3 else temporal, fmt, t,
                               [None, 2 ** t - 1, 2 ** (t - 1), 1] + ([] if q else list(range(1, 2 ** t))), fmt))
            for c in (None, 2, 7):
                cs.append(Case("products-%s-%s-%s" % (temporal, fmt, c), fp_products, temporal, fmt, 3, c))
            for wd in (3, 5, 8):
                for t in (2, 3, 4):
                    cs.append(Case("mixed-%s-%s-w%d-t%d" % (temporal, fmt, wd, t), mixed, temporal, fmt, wd, t, [None, 2 ** t - 1, 2]))
        for fi, fw in (("fxp", "fxp"), ("float16", "float16"), ("bfloat16", "bfloat16"), ("float32", "float32"), ("fxp", "float32") if temporal == "i" else ("float32", "fxp")):
            for s in range(3):
                cs.append(Case("conv-%s-%s-%s-%d" % (temporal, fi, fw, s), conv, temporal, fi, fw, 2 + s, combos()[s::(15 if q else 3)]))
    for fmt in ("bfloat16", "float16", "float32"):
        cs.append(Case("untouched-%s" % fmt, untouched, fmt))
    for temporal in ("i", "w"):
        for wi, ww, t in ((12, 10, 4), (10, 12, 5), (16, 8, 4), (9, 9, 8), (13, 6, 3)):
            cs.append(Case("wide-%s-%d-%d-t%d" % (temporal, wi, ww, t), wide, temporal, wi, ww, t))
        for n in (17, 65, 200):
            cs.append(Case("many-%s-%d" % (temporal, n), many, temporal, n))
    return cs
