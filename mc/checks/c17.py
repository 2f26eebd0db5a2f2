import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("widths 1-4 (8 for long runs), 1-4 inputs, all weight rows x bias values at width <= 2, every word of input vectors (2^12 histories) then repeated past two wraps, "
          "every reachable model state x words for single-row layers, all rng kinds, both modes, scales None/1/2/3/0.5/full, depths 3-12, runtime scale and entry, batch sizes; widths up to 10, up to some hundred inputs, many outputs, depths up to 14")
ASSUMPTIONS = ["weights and biases are given externally", "the batch size stays the same over one stream", "deterministic weight generators (lfsr and sys are covered by C01/C03)"]

RC = (("Sobol", 1), ("sobol", 3), ("RC", 2))
TC = (("race", 1), ("TC", 1), ("race10", 1), ("tc10", 1))


def rows(width, n, bias, vals=None):
    W = Y.all_rows(width, n, vals)
    if bias:
        b = np.array(vals if vals is not None else range(2 ** width + 1))
        return np.repeat(W, len(b), 0), np.tile(b, len(W))
    return W, None


def drive(ctx, W, B, hist, width, mode, rng, dimr, scale=None, depth=12, run_scale=None, run_entry=None, count=True, later=False):
    m = Y.Linear(W, B, width, mode, rng, dimr, run_scale if run_scale is not None else scale, run_entry, depth)
    impl = Y.make_linear(W, B, width, mode, rng, dimr, scale, depth)
    cfg = dict(width=width, mode=mode, rng=rng, dimr=dimr, scale=scale, depth=depth, bias=B is not None, inputs=W.shape[1],
               outputs=len(W), run_scale=run_scale, run_entry=run_entry, batch=len(hist))
    call = None
    if run_scale is not None or run_entry is not None:
        def call(x, t):
            kw = {}
            if t == 0 or not later:
                if run_scale is not None:
                    kw["scale"] = run_scale
                if run_entry is not None:
                    kw["entry"] = run_entry
            elif later:
                kw = dict(scale=7, entry=9)     # only the first cycle counts
            return impl(x, **kw)
    Y.conform(ctx, m, hist, impl, "FSULinear", cfg, count=count, call=call)


def words(n, lanes, length):
    A = M.Model()
    A.ninp = n
    k = max(1, int(np.log2(lanes)) // n)
    W = L.words(A.alphabet(), k)
    return np.tile(W, (1, -(-length // k), 1))[:, :length]


def full(ctx, width, n, bias, mode, rng, dimr, scale, depth, lanes, vals=None):
    W, B = rows(width, n, bias, vals)
    T = 2 * 2 ** width + max(1, int(np.log2(lanes)) // n)
    drive(ctx, W, B, words(n, lanes, T), width, mode, rng, dimr, scale, depth)


def cover(ctx, width, n, bias, mode, rng, dimr, scale, depth, suffix, max_states, max_lanes):
    """One-row layers: each reachable model state, then all words."""
    W, B = rows(width, n, bias)
    for i in range(len(W)):
        w, b = W[i:i + 1], None if B is None else B[i:i + 1]
        m = Y.Linear(w, b, width, mode, rng, dimr, scale, None, depth)
        h, info = L.cover(m, suffix, max_states=max_states, max_lanes=max_lanes)
        drive(ctx, w, b, h, width, mode, rng, dimr, scale, depth)
    ctx.notes["last cover"] = info


def periodic(ctx, width, n, bias, mode, rng, dimr, scale, depth, maxp, length, vals):
    W, B = rows(width, n, bias, vals)
    A = M.Model(); A.ninp = n
    P = L.periodic(A.alphabet(), maxp, length)
    drive(ctx, W, B, P, width, mode, rng, dimr, scale, depth, count=False)
    if len(P) <= 40:
        drive(ctx, W, B, L.switching(A.alphabet(), maxp, length, length // 2), width, mode, rng, dimr, scale, depth, count=False)


def batches(ctx, width, n, bias, mode, rng, dimr):
    W, B = rows(width, n, bias)
    H = words(n, 64, 3 * 2 ** width)
    for nb in (1, 2, 3, 5, 64):
        for s in range(0, 64 - nb + 1, max(1, nb * 7)):
            drive(ctx, W, B, H[s:s + nb], width, mode, rng, dimr, count=False)
    # square shapes: as many batch items as outputs
    drive(ctx, W[:4], None if B is None else B[:4], H[10:14], width, mode, rng, dimr, count=False)


def runtime(ctx, mode, bias):
    W, B = rows(1, 2, bias)
    H = words(2, 1024, 12)
    for scale in (None, 1, 2):
        for rs in (None, 1, 2, 3, 1.5):
            for re in (None, 1, 2, 3, 5):
                if rs is None and re is None:
                    continue
                for later in (False, True):
                    drive(ctx, W, B, H, 1, mode, "Sobol", 1, scale, 8, rs, re, count=False, later=later)


def wide(ctx, width, n, bias, mode, rng, dimr, scale, depth, outs):
    """Many inputs and outputs, wide values: constant, alternating, rotating and filling histories over more than one period."""
    T = min(2 ** width + 2 ** (width - 2) + 9, 1400) if n < 50 else 40
    q = 2 ** width + 1
    W = (np.arange(outs * n).reshape(outs, n) * 37 + np.arange(outs)[:, None] * 11) % q
    if n == 1:
        W[:min(outs, 6), 0] = [0, 1, q // 2, q - 2, q - 1, 3][:min(outs, 6)]
    B = (np.arange(outs) * 91 + 3) % q if bias else None
    t = np.arange(T)[None, :, None]
    j = np.arange(n)[None, None, :]
    one = np.ones((1, T, n), dtype=np.int64)
    H = np.concatenate([one, 0 * one, (t + j) % 2, (t + j) % 3 == 0, (t < T // 2) | (j < 0), (t // 5 + j) % 2, (t * 7 + j * 5) % 11 < 4, j <= t + 0 * j]).astype(np.int64)
    drive(ctx, W, B, H, width, mode, rng, dimr, scale, depth, count=False)


def cases(tier):
    q = tier != "thorough"
    lanes = 1024 if q else 4096
    cs = []
    for mode in ("unipolar", "bipolar"):
        for bias in (False, True):
            t = "%s-%s" % (mode[:3], "b" if bias else "n")
            for rng, d in RC + TC:
                for width, n in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)):
                    cs.append(Case("full-%s-%s%d-w%dn%d" % (t, rng, d, width, n), full, width, n, bias, mode, rng, d, None, 12,
                                   4096 if n * width <= 2 else lanes))
                tc = (rng, d) in TC
                for scale, depth in ((1, 6), (2, 4), (3, 8), (0.5, 5), (1, 3)):
                    if tc and mode == "bipolar":
                        continue
                    cs.append(Case("scale-%s-%s%d-s%s-d%d" % (t, rng, d, scale, depth), full, 2, 2, bias, mode, rng, d, scale, depth, lanes,
                                   (0, 1, 3, 4)))
                cs.append(Case("cover-%s-%s%d" % (t, rng, d), cover, 1, 2, bias, mode, rng, d, None, 12, 2, 400, 6000))
                if rng in ("Sobol", "race"):
                    cs.append(Case("batch-%s-%s" % (t, rng), batches, 2, 2, bias, mode, rng, d))
                    cs.append(Case("long-%s-%s" % (t, rng), periodic, 8, 1, bias, mode, rng, d, None, 12, 4, 600, (0, 1, 77, 128, 200, 255, 256)))
                    cs.append(Case("four-%s-%s" % (t, rng), periodic, 4, 4, bias, mode, rng, d, None, 12, 2, 40, (0, 7, 16)))
            cs.append(Case("cover2-%s" % t, cover, 2, 1, bias, mode, "Sobol", 1, 1, 6, 4, 600, 6000))
            cs.append(Case("runtime-%s" % t, runtime, mode, bias))
            if not q:
                cs.append(Case("big-%s" % t, full, 2, 3, bias, mode, "Sobol", 1, None, 12, 4096, (0, 1, 2, 4)))
                cs.append(Case("cover3-%s" % t, cover, 2, 2, bias, mode, "Sobol", 1, None, 12, 2, 4000, 20000))
    for mode in ("unipolar", "bipolar"):
        for bias in (False, True):
            t = "%s-%s" % (mode[:3], "b" if bias else "n")
            for rng, d in (("Sobol", 1), ("race", 1), ("tc10", 1), ("rc", 2)):
                for w in (9, 10) if q else (9, 10, 11, 12):
                    cs.append(Case("wide-%s-%s-w%d" % (t, rng, w), wide, w, 1, bias, mode, rng, d, None, 12, 40))
                for n, depth in ((20, 12), (130, 12), (300, 14)):
                    cs.append(Case("many-%s-%s-n%d" % (t, rng, n), wide, 4, n, bias, mode, rng, d, None, depth, 30 if n < 200 else 5))
            cs.append(Case("outs-%s" % t, wide, 3, 3, bias, mode, "Sobol", 1, None, 12, 300))
            cs.append(Case("deep-%s" % t, wide, 9, 2, bias, mode, "Sobol", 1, 1, 14, 9))
    return cs
