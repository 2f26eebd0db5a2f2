import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("kernels 1-3 x 1-3, strides 1-3, paddings 0-2 and dilations 1-2 (scalar and per axis), 1-2 channels, 1-4 kernels; all words of frames for 2x2 and 1x3 inputs, "
          "all frames and all pairs of alternating frames for larger ones; widths 1-4; all rng kinds, both modes, scales and depths; widths 9-10, 4 to 33 channels, up to 9 kernels")
ASSUMPTIONS = ["groups=1 and zero padding mode (asserted by the layer)", "the batch size stays the same over one stream"]


def weights(width, O, Cc, k, salt=0):
    """Deterministic, spread-out kernels."""
    n = O * Cc * k[0] * k[1]
    v = (np.arange(n) * 7 + 3 * salt + (np.arange(n) // 3)) % (2 ** width + 1)
    return v.reshape(O, Cc, k[0], k[1]).astype(np.int64)


def drive(ctx, W, B, in_hw, hist, width, mode, rng="Sobol", dimr=1, stride=1, padding=0, dilation=1, scale=None, depth=12,
          run_scale=None, run_entry=None, count=False, kernel=None):
    m = Y.Conv(W, B, in_hw, width, mode, stride, padding, dilation, rng=rng, dimr=dimr,
               scale=run_scale if run_scale is not None else scale, entry=run_entry, depth=depth)
    hw = dict(width=width, mode=mode, scale=scale, depth=depth, rng=rng, dimr=dimr)
    k = kernel if kernel is not None else tuple(W.shape[2:])
    impl = C.K().FSUConv2d(W.shape[1], W.shape[0], k, stride=stride, padding=padding, dilation=dilation, bias=B is not None,
                           weight_ext=Y.grid(Y.value(W, width, mode)), bias_ext=None if B is None else Y.grid(Y.value(B, width, mode)),
                           hwcfg=hw, swcfg=dict(Y.SW))
    cfg = dict(hw, kernel=k, stride=stride, padding=padding, dilation=dilation, input=(W.shape[1],) + tuple(in_hw), outputs=W.shape[0],
               bias=B is not None, batch=len(hist), run_scale=run_scale, run_entry=run_entry)
    call = None
    if run_scale is not None or run_entry is not None:
        kw = {k2: v for k2, v in (("scale", run_scale), ("entry", run_entry)) if v is not None}
        call = lambda x, t: impl(x, **kw) if t == 0 else impl(x)
    Y.conform(ctx, m, hist, impl, "FSUConv2d", cfg, in_shape=(W.shape[1],) + tuple(in_hw), out_shape=(len(W),) + m.osz, count=count, call=call)


def frames(n, lanes, length):
    A = M.Model(); A.ninp = n
    k = max(1, int(np.log2(lanes)) // n)
    W = L.words(A.alphabet(), k)
    return np.tile(W, (1, -(-length // k), 1))[:, :length]


def pairs(n, length, limit):
    """All frames repeated; all ordered pairs alternated (up to limit, structured beyond)."""
    A = M.Model(); A.ninp = n
    F = np.array(A.alphabet(), dtype=np.int64)
    if len(F) ** 2 > limit:
        # every single-pixel, two-pixel and complement frame
        keep = [i for i in range(len(F)) if F[i].sum() in (0, 1, n - 1, n)]
        sel = F[keep]
        base = np.repeat(F[:, None], length, 1)
    else:
        sel, base = F, None
    a = np.repeat(sel, len(sel), 0)
    b = np.tile(sel, (len(sel), 1))
    h = np.empty((len(a), length, n), dtype=np.int64)
    h[:, 0::2], h[:, 1::2] = a[:, None], b[:, None]
    # switch the phase half way so that window positions drift apart
    h[:, length // 2:] = h[:, length // 2:][:, ::-1]
    return h if base is None else np.concatenate([base, h])


def words(ctx, in_hw, k, width, mode, rng, dimr, bias, padding, lanes, count):
    O = 3
    W = weights(width, O, 1, k, 1)
    B = (np.arange(O) * 3 + 1) % (2 ** width + 1) if bias else None
    n = in_hw[0] * in_hw[1]
    drive(ctx, W, B, in_hw, frames(n, lanes, 2 * 2 ** width + 3), width, mode, rng, dimr, padding=padding, count=count)


def geometry(ctx, mode, rng, width, combos):
    done = 0
    for Cc, in_hw, k, s, p, d, bias in combos:
        pp, dd = Y.pair(p), Y.pair(d)
        if any(in_hw[i] + 2 * pp[i] < dd[i] * (k[i] - 1) + 1 for i in (0, 1)):
            continue
        O = 2 + (done % 3)
        W = weights(width, O, Cc, k, done)
        B = (np.arange(O) * 5 + done) % (2 ** width + 1) if bias else None
        n = Cc * in_hw[0] * in_hw[1]
        h = pairs(n, 2 ** width + 4, 4096) if n <= 9 else structured(n, 2 ** width + 4)
        if len(h) > 128:
            h = h[done % 3::1 + len(h) // 128]
        drive(ctx, W, B, in_hw, h, width, mode, rng, 1 + done % 2, s, p, d)
        done += 1
    ctx.notes["geometries"] = done


def structured(n, length):
    """Every one-hot and one-cold frame, plus frames from Walsh patterns, as periodic histories."""
    eye = np.eye(n, dtype=np.int64)
    walsh = np.array([[(i >> b) & 1 for i in range(n)] for b in range(n.bit_length())], dtype=np.int64)
    F = np.concatenate([eye, 1 - eye, walsh, 1 - walsh, np.zeros((1, n), np.int64), np.ones((1, n), np.int64)])
    h = np.empty((len(F), length, n), dtype=np.int64)
    for t in range(length):
        h[:, t] = np.roll(F, t // 2, axis=0) if t % 2 else F
    return h


def combos():
    ks = [(1, 1), (2, 2), (3, 3), (1, 3), (3, 1), (2, 3), (1, 2)]
    ss = [1, 2, (1, 2), (2, 1), 3]
    ps = [0, 1, 2, (1, 0), (0, 1), (2, 1), (1, 2)]
    ds = [1, 2, (1, 2), (2, 1)]
    hws = [(3, 3), (2, 4), (4, 3), (5, 5)]
    out = []
    for i, (k, s, p, d) in enumerate(itertools.product(ks, ss, ps, ds)):
        out.append((1 + (i % 5 == 0), hws[i % len(hws)], k, s, p, d, i % 2 == 0))
    return out


def scales(ctx, mode, rng):
    W = weights(2, 3, 1, (2, 2), 2)
    B = np.array([0, 2, 3])
    h = pairs(4, 16, 4096)
    for scale, depth in ((None, 12), (1, 5), (2, 3), (4, 6), (0.5, 4)):
        for rs, re in ((None, None), (1, None), (None, 3), (2, 7)):
            if rng.lower() in ("race", "tc10") and mode == "bipolar" and scale is not None:
                continue
            drive(ctx, W, B, (2, 2), h, 2, mode, rng, 1, 1, 1, 1, scale, depth, rs, re)
            drive(ctx, W, None, (2, 2), h, 2, mode, rng, 1, 1, 0, 1, scale, depth, rs, re)


def batches(ctx, mode, rng):
    W = weights(2, 4, 1, (2, 2), 5)
    h = pairs(9, 12, 100)
    for nb in (1, 2, 3, 4, 9):
        for s in range(0, len(h) - nb, max(1, len(h) // 4)):
            drive(ctx, W, np.array([1, 4, 0, 2]), (3, 3), h[s:s + nb], 2, mode, rng, 1, 1, 1, 1)


def long(ctx, mode, rng):
    W = weights(8, 3, 1, (3, 3), 11)
    h = structured(9, 600)
    drive(ctx, W, np.array([3, 128, 250]), (3, 3), h, 8, mode, rng, 1, 1, 1, 1)


def scalar_kernel(ctx, mode):
    for k in (1, 2, 3):
        for p in (0, 1):
            W = weights(2, 2, 2, (k, k), k)
            drive(ctx, W, np.array([1, 3]), (3, 4), structured(24, 10), 2, mode, "Sobol", 1, 1, p, 1, kernel=k)


def wide(ctx, mode, rng, width):
    W = weights(width, 3, 1, (2, 2), 11) * 5 % (2 ** width + 1)
    T = 2 ** width + 60
    t = np.arange(T)[None, :, None]
    j = np.arange(6)[None, None, :]
    h = np.concatenate([np.ones((1, T, 6), np.int64), (t + j) % 2, (t // 3 + j) % 3 == 0, (t < T // 2) | (j < 2)]).astype(np.int64)
    drive(ctx, W, np.array([3, 128, 250]), (2, 3), h, width, mode, rng, 1, 1, 1, 1)


def channels(ctx, mode, rng, Cc, O, bias):
    W = weights(3, O, Cc, (3, 3), 2)
    h = structured(Cc * 16, 12)[::max(1, Cc // 4)]
    drive(ctx, W, (np.arange(O) * 5 + 1) % 9 if bias else None, (4, 4), h, 3, mode, rng, 1, (1, 2), 1, 1)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        for rng, d in (("Sobol", 1), ("rc", 3), ("race", 1), ("TC10", 1)):
            for bias in (False, True):
                t = "%s-%s-%s" % (mode[:3], rng, "b" if bias else "n")
                for in_hw, k in (((2, 2), (2, 2)), ((2, 2), (1, 2)), ((1, 3), (1, 2)), ((1, 3), (1, 1)), ((2, 1), (2, 1))):
                    for p in (0, 1):
                        cs.append(Case("words-%s-%s-%s-p%d" % (t, in_hw, k, p), words, in_hw, k, 2, mode, rng, d, bias, p,
                                       256 if q else 4096, not q or p == 1))
            co = combos()
            step = 4 if q else 1
            nsh = 6
            for s in range(nsh):
                sel = co[s::nsh]
                off = {"Sobol": 0, "rc": 1, "race": 2, "TC10": 3}[rng]
                cs.append(Case("geometry-%s-%s-%d" % (mode[:3], rng, s), geometry, mode, rng, 2, sel[off % step::step]))
            cs.append(Case("scales-%s-%s" % (mode[:3], rng), scales, mode, rng))
            cs.append(Case("batches-%s-%s" % (mode[:3], rng), batches, mode, rng))
            cs.append(Case("long-%s-%s" % (mode[:3], rng), long, mode, rng))
        cs.append(Case("scalar-%s" % mode[:3], scalar_kernel, mode))
        for rng in ("Sobol", "race", "tc10", "rc"):
            cs.append(Case("wide-%s-%s" % (mode[:3], rng), wide, mode, rng, 9 if q else 10))
            for Cc, O, bias in ((4, 9, True), (16, 3, False), (33, 2, True)):
                cs.append(Case("channels-%s-%s-%d" % (mode[:3], rng, Cc), channels, mode, rng, Cc, O, bias))
    return cs
