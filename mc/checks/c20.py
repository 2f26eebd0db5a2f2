import itertools
import numpy as np
import torch
from ..core import Case, Known
from .. import comps as C, lanes as L, layers as Y, models as M, binary as B
from ..common import *

LEVEL = "exploration"
RULE = "one evaluation per output element; a table configuration enumerates every signed input magnitude x every signed weight magnitude"
BOUNDS = ("equal widths 2-8, all rng pairs except temporal-temporal, all signed operand pairs (including halves, quarter steps and out-of-range values), all cycle counts at small widths, "
          "3 rounding modes, quantiles, power-of-two scales, 1-3 inputs, convolution geometries; widths 7, 9, 10 (11 thorough), up to 200 inputs, mixed widths")
ASSUMPTIONS = ["deterministic generators", "quantile magnitudes are not within 0.1% of a rounding boundary of their exponent"]
RNGS = ("Sobol", "rc", "race", "TC", "race10", "tc10")


def hwcfg(width, rngi="Sobol", rngw="Sobol", qi=1, qw=1, cycle=None, rounding="round", widthw=None):
    return dict(widthi=width, rngi=rngi, quantilei=qi, widthw=widthw or width, rngw=rngw, quantilew=qw, cycle=cycle, rounding=rounding, signmag=True)


def f32(a):
    return None if a is None else np.asarray(a, dtype=np.float32).astype(np.float64)


def run(ctx, x, w, b, hw, reps=2):
    x, w, b = f32(x), f32(w), f32(b)
    keep = dict(hw)
    tw, tb = Y.grid(w), None if b is None else Y.grid(b)
    layer = C.K().HUBLinear(w.shape[1], w.shape[0], bias=b is not None, weight_ext=tw, bias_ext=tb, hwcfg=hw)
    width = hw["widthi"]
    r = hw["rounding"].lower()
    for a, q in ((x, hw["quantilei"]), (w, hw["quantilew"])):
        if not B.unambiguous(a, q, r):
            ctx.notes["skipped ambiguous"] = ctx.notes.get("skipped ambiguous", 0) + 1
            return None
    exp, step = B.hub(x, w, b, width, hw["rngi"], hw["rngw"], hw["quantilei"], hw["quantilew"], r, hw["cycle"])
    tx = Y.grid(x)
    kx = tx.clone()
    for rep in range(reps):
        got = layer(tx)
        compare(ctx, got, exp, step, "HUBLinear", keep, x, w, rep)
    ctx.check(torch.equal(tx, kx), "HUBLinear modified its input", config=keep)
    ctx.check(hw == keep, "HUBLinear modified its configuration", config=keep)
    ctx.outcomes.add(hash(exp.tobytes()))
    ctx.nontrivial += exp.size
    return exp


def compare(ctx, got, exp, step, what, cfg, x=None, w=None, rep=0):
    ctx.check(tuple(got.shape) == exp.shape, "%s output shape %s, expected %s" % (what, tuple(got.shape), exp.shape), config=cfg)
    ctx.check(got.dtype == torch.float32, "%s output type %s" % (what, got.dtype), config=cfg)
    o = L.to_np(got)
    tol = 0.02 * step + 2e-6 * np.abs(exp)
    bad = np.argwhere(~(np.abs(o - exp) <= tol))
    ctx.evals += o.size
    if len(bad):
        i = tuple(int(v) for v in bad[0])
        ctx.fail("%s output %s is %s, expected %s (step %g; %d of %d differ)" % (what, i, o[i], exp[i], step, len(bad), o.size), config=cfg, call=rep,
                 input=None if x is None else x[i[0]] if x.ndim == 2 else None, weight=None if w is None or w.ndim != 2 else w[i[1]])


def full_table(ctx, width, rngi, rngw, cycles, roundings):
    """Every signed multiple of a quarter step against every signed multiple of a quarter step."""
    n = 2 ** (width - 1)
    sub = 4 if width <= 4 else (2 if width <= 6 else 1)
    g = np.arange(-n * sub - sub, n * sub + sub + 1) / (n * sub)
    g = g[np.abs(g) <= 1.0 + 1.0 / n]
    for cyc in cycles:
        for r in roundings:
            exp = run(ctx, g[:, None], g[:, None], None, hwcfg(width, rngi, rngw, 1, 1, cyc, r), reps=1)
    ctx.sample(dict(width=width, rngi=rngi, rngw=rngw, pairs=len(g) ** 2))


def scaled(ctx, width, rngi, rngw, rounding):
    n = 2 ** (width - 1)
    g = np.arange(-n + 1, n) / n
    for si in (-7, -3, 0, 1, 5):
        for sw in (-6, -2, 0, 2):
            for f in (1.0, 1.3, 0.8):
                for bias in (False, True):
                    w = g[:, None] * 2.0 ** sw * f
                    b = np.linspace(-1.3, 0.9, len(g)) * 2.0 ** (si + sw) if bias else None
                    run(ctx, g[:, None] * 2.0 ** si * f, w, b, hwcfg(width, rngi, rngw, 1, 1, None, rounding), reps=1)


def inputs(ctx, width, n, rngi, rngw, vals, cycle, bias):
    X = Y.all_rows(0, n, vals) * 1.0
    W = Y.all_rows(0, n, vals) * 1.0
    b = (np.arange(len(W)) - len(W) / 2) * 0.013 if bias else None
    for r in ("round", "floor", "ceil"):
        run(ctx, X, W, b, hwcfg(width, rngi, rngw, 1, 1, cycle, r.upper() if r == "ceil" else r), reps=2)


def quantiles(ctx, width, rngi, rngw):
    n = 2 ** (width - 1)
    base = np.concatenate([np.arange(-n, n + 1) / n, [3.7, -2.9, 5.1]])
    for qi in (1, 0.95, 0.8, 0.5, 0.2):
        for qw in (1, 0.9, 0.6):
            for r in ("round", "floor", "ceil"):
                run(ctx, base[:, None], base[::-1, None] * 0.7, None, hwcfg(width, rngi, rngw, qi, qw, None, r), reps=1)
                run(ctx, np.abs(base[:, None]) * 0.3, base[:, None] - 0.4, None, hwcfg(width, rngi, rngw, qi, qw, n - 1, r), reps=1)


def zero(ctx, width):
    z = np.zeros((3, 2))
    w = np.array([[0.5, -0.25], [0.75, 0.1]])
    b = np.array([0.3, -0.7])
    for x, ww in ((z, w), (w, z), (z, z), (w, w)):
        for bb in (None, b if len(ww) == 2 else np.array([0.1, 0.2, 0.3])):
            for r in ("round", "floor", "ceil"):
                run(ctx, x, ww, bb, hwcfg(width, "Sobol", "Sobol", 1, 1, None, r))


def history(ctx, width):
    """The same layer fed changing inputs: every call depends on its own input only."""
    n = 2 ** (width - 1)
    g = np.arange(-n + 1, n) / n
    hw = hwcfg(width, "Sobol", "race")
    layer = C.K().HUBLinear(1, len(g), bias=False, weight_ext=Y.grid(g[:, None]), hwcfg=hw)
    xs = [g[:, None] * s for s in (1, 4, 0.25)] + [np.zeros((2, 1)), g[:1, None], g[3:5, None] * 16]
    for order in itertools.permutations(range(len(xs)), 3):
        for i in order:
            exp, step = B.hub(xs[i], g[:, None], None, width, "Sobol", "race", 1, 1, "round", None)
            compare(ctx, layer(Y.grid(xs[i])), exp, step, "HUBLinear", dict(hw, order=order))
            ctx.nontrivial += 1


def conv(ctx, width, rngi, rngw, geoms):
    done = 0
    for Cc, hw_in, k, s, p, d, bias in geoms:
        pp, dd = Y.pair(p), Y.pair(d)
        if any(hw_in[i] + 2 * pp[i] < dd[i] * (k[i] - 1) + 1 for i in (0, 1)):
            continue
        O, N, q = 3, 2, 2 ** (width - 1)
        x = (((np.arange(N * Cc * hw_in[0] * hw_in[1]) * 5 + done) % (2 * q - 1)) - (q - 1)).reshape((N, Cc) + hw_in) / q
        w = (((np.arange(O * Cc * k[0] * k[1]) * 3 + 2 * done) % (2 * q - 1)) - (q - 1)).reshape((O, Cc) + k) / q
        x, w = f32(x), f32(w)
        b = f32([0.21, -0.4, 0.03]) if bias else None
        r = ("round", "floor", "ceil")[done % 3]
        cyc = (None, q - 1, max(1, q // 2))[done % 3]
        qi, qw = ((1, 1), (0.9, 1), (1, 0.8))[(done // 3) % 3]
        if not (B.unambiguous(x, qi, r) and B.unambiguous(w, qw, r)):
            done += 1
            continue
        hw = hwcfg(width, rngi, rngw, qi, qw, cyc, r)
        layer = C.K().HUBConv2d(Cc, O, k, stride=s, padding=p, dilation=d, bias=bias, weight_ext=Y.grid(w), bias_ext=None if b is None else Y.grid(b), hwcfg=hw)
        win, osz = B.conv_windows(x, k, Y.pair(s), pp, dd)
        e, step = B.hub(win.reshape(-1, win.shape[2]), w.reshape(O, -1), b, width, rngi, rngw, qi, qw, r, cyc, xall=x)
        cfg = dict(hw, kernel=k, stride=s, padding=p, dilation=d, shape=x.shape, bias=bias)
        compare(ctx, layer(Y.grid(x)), B.fold(e, N, osz), step, "HUBConv2d", cfg)
        ctx.nontrivial += e.size
        ctx.outcomes.add(hash(e.tobytes()))
        done += 1
    ctx.notes["geometries"] = done


def table_quality(ctx, width, rngi, rngw):
    """Products observed through the layer: monotone and close to the true product."""
    n = 2 ** (width - 1)
    g = np.arange(n) / n
    layer = C.K().HUBLinear(1, n, bias=False, weight_ext=Y.grid(g[:, None]), hwcfg=hwcfg(width, rngi, rngw))
    P = L.to_np(layer(Y.grid(g[:, None])))
    e = B.exponent(g, 1, "round")[0]
    ctx.check(bool((np.diff(P, axis=0) >= -1e-9).all() and (np.diff(P, axis=1) >= -1e-9).all()), "product table is not monotone", width=width, rngi=rngi, rngw=rngw)
    if rngi.lower() in ("sobol", "rc") and rngw.lower() in ("sobol", "rc"):
        err = np.abs(P - np.outer(g, g)).max() * n
        ctx.notes["worst error in steps"] = float(err)
        ctx.check(err <= 1 + 0.5 * (width - 1), "product is off by %g steps" % err, width=width, rngi=rngi, rngw=rngw)
    if (rngi.lower() in B.TC) != (rngw.lower() in B.TC):
        err = np.abs(P - np.outer(g, g)).max() * n
        ctx.notes["worst error in steps"] = float(err)
    ctx.nontrivial += n * n


def mixed_width(ctx, cls, wi, ww):
    key = "%s widthi=%d widthw=%d" % (cls, wi, ww)
    hw = hwcfg(wi, widthw=ww)
    try:
        if cls == "HUBLinear":
            C.K().HUBLinear(2, 2, bias=False, weight_ext=torch.zeros(2, 2), hwcfg=hw)
        else:
            C.K().HUBConv2d(1, 1, 2, bias=False, weight_ext=torch.zeros(1, 1, 2, 2), hwcfg=hw)
    except RuntimeError as e:
        if "size" in str(e):
            raise Known(key)
        raise
    ctx.nontrivial += 1


def wide(ctx, width, rngi, rngw):
    n = 2 ** (width - 1)
    k = np.unique(np.concatenate([np.arange(0, 8), n - np.arange(0, 8), np.arange(0, n, max(1, n // 37)), [n // 2 - 1, n // 2, n // 2 + 1]]))
    g = np.concatenate([-k[::-1], k, [0.25, -0.5, 1.5]]) / n
    for cyc in (None, n - 1, n // 2, 300, 256, 255):
        for r in ("round", "ceil"):
            run(ctx, g[:, None], g[:, None], None, hwcfg(width, rngi, rngw, 1, 1, cyc, r), reps=1)
    ctx.sample(dict(width=width, rngi=rngi, rngw=rngw, pairs=len(g) ** 2))


def many(ctx, width, n, rngi, rngw):
    """Many inputs, outputs and batch items."""
    q = 2 ** (width - 1)
    for N, O in ((3, 40), (70, 5), (1, 1)):
        X = (((np.arange(N * n) * 53 + 7) % (2 * q - 1)) - (q - 1)).reshape(N, n) / q
        W = (((np.arange(O * n) * 29 + 11) % (2 * q - 1)) - (q - 1)).reshape(O, n) / q
        for b in (None, np.arange(O) * 0.25 - 3):
            run(ctx, X, W, b, hwcfg(width, rngi, rngw), reps=2)


def cases(tier):
    q = tier != "thorough"
    cs = []
    pairs = [(a, b) for a in RNGS for b in RNGS if not (a.lower() in B.TC and b.lower() in B.TC)]
    for a, b in pairs:
        for w in (2, 3, 4, 5, 6, 8):
            if w in (5, 6) and (a, b) not in (("Sobol", "Sobol"), ("Sobol", "race"), ("tc10", "rc"), ("TC", "Sobol")) and q:
                continue
            n = 2 ** (w - 1)
            cyc = [None] + (list(range(1, n + 2)) if w <= 3 or (w == 4 and not q) else [n - 1, n // 2, n * 3])
            cs.append(Case("table-%s-%s-w%d" % (a, b, w), full_table, w, a, b, cyc if w < 8 else [None, 100], ("round", "floor", "ceil") if w < 8 else ("round",)))
        cs.append(Case("quality-%s-%s" % (a, b), table_quality, 8, a, b))
    for a, b in (("Sobol", "Sobol"), ("race", "Sobol"), ("Sobol", "tc10")):
        for r in ("round", "Floor", "ceil"):
            cs.append(Case("scaled-%s-%s-%s" % (a, b, r), scaled, 4, a, b, r))
        cs.append(Case("quantile-%s-%s" % (a, b), quantiles, 4, a, b))
        for w in (3, 5, 7):
            cs.append(Case("quality-%s-%s-w%d" % (a, b, w), table_quality, w, a, b))
        for bias in (False, True):
            cs.append(Case("in2-%s-%s-%d" % (a, b, bias), inputs, 3, 2, a, b, (-1.1, -0.75, -0.25, 0.0, 0.375, 0.5, 1.0), None, bias))
            cs.append(Case("in3-%s-%s-%d" % (a, b, bias), inputs, 4, 3, a, b, (-0.9, -0.25, 0.0, 0.55, 1.0) if not q else (-0.9, 0.0, 0.55, 1.0), 5, bias))
        from .c18 import combos
        co = combos()
        for s in range(4):
            cs.append(Case("conv-%s-%s-%d" % (a, b, s), conv, 4, a, b, co[s::(8 if q else 4)]))
    cs.append(Case("zero", zero, 4))
    cs.append(Case("history", history, 4))
    for cls in ("HUBLinear", "HUBConv2d"):
        for wi, ww in ((8, 6), (6, 8)):
            cs.append(Case("mixed-%s-%d-%d" % (cls, wi, ww), mixed_width, cls, wi, ww))
    for a, b in (("Sobol", "Sobol"), ("race", "Sobol"), ("Sobol", "tc10"), ("rc", "race10")):
        for w in (7, 9, 10) if q else (7, 9, 10, 11):
            cs.append(Case("wide-%s-%s-w%d" % (a, b, w), wide, w, a, b))
        for n in (17, 65, 200):
            cs.append(Case("many-%s-%s-n%d" % (a, b, n), many, 8, n, a, b))
    return cs
