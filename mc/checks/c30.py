import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("all bit histories of length 10 (quick) / 14 (thorough) from 15 sources, 6 thresholds and 4 scales with reads after every cycle and after every subset of 6 cycles; histories up to 1100 cycles that "
          "become stable, unstable and stable again; ten stream data types over 600-2100 cycles; shapes of 1-4 dimensions, mixed sources per element")
ASSUMPTIONS = ["histories in which the error comes within 1e-6 of the threshold without being exactly representable are not compared", "single-precision tolerance 3e-7"]


def ST():
    import UnarySim.metric.metric as m
    return m.Stability


def drive(ctx, bits, src, mode, scale, thr, stype=F32, reads=None, shape=None):
    N, T = bits.shape
    shape = shape or (N,)
    ts = torch.tensor(src, dtype=F32).reshape(shape)
    src = ts.double().numpy().reshape(-1)
    keep = ts.clone()
    cfg = dict(mode=mode, scale=scale, threshold=thr, shape=shape)
    hw = dict(mode=mode, scale=scale, threshold=thr)
    khw = dict(hw)
    m = ST()(ts, hw)
    ones, last, ok = np.zeros(N), np.ones(N), np.ones(N, dtype=bool)
    s = np.clip(src / scale, -1, 1)
    for t in range(1, T + 1):
        b = L.bits(bits[:, t - 1], stype).reshape(shape)
        kb = b.clone()
        m.Monitor(b)
        ctx.check(torch.equal(b, kb), "Monitor modified its input", **cfg)
        ones += bits[:, t - 1]
        pp = ones / t if mode.lower() == "unipolar" else 2 * ones / t - 1
        e = np.abs(pp - s)
        near = np.abs(e - thr) < 1e-6
        exact = (np.float32(pp) == pp) & (np.float32(s) == s) & (float(np.float32(thr)) == thr)
        ok &= ~(near & ~exact)
        last = np.where(e > thr, t, last)
        exp = 1 - last / t
        if reads is None or t in reads or t == T:
            for rep in range(1 + (t % 3 == 1)):
                y = m()
                ctx.check(tuple(y.shape) == shape, "stability has shape %s, expected %s" % (tuple(y.shape), shape), **cfg)
                y = L.to_np(y).reshape(-1)
                bad = np.nonzero((~(np.abs(y - exp) <= 3e-7)) & ok)[0]
                ctx.evals += int(ok.sum())
                if len(bad):
                    i = int(bad[0])
                    ctx.fail("stability after %d cycles is %s, expected %s" % (t, y[i], exp[i]), source=float(src[i]), history=bits[i, :t].tolist(), lane=i, **cfg)
            ctx.outcomes.add(hash((t, exp.tobytes())))
        ctx.states.update(zip([t] * N, ones.tolist(), last.tolist()))
        ctx.trans.update(zip([t] * N, ones.tolist(), last.tolist(), bits[:, t - 1].tolist()))
    ctx.check(torch.equal(ts, keep) and hw == khw, "arguments were modified", **cfg)
    ctx.notes["lanes not compared"] = ctx.notes.get("lanes not compared", 0) + int((~ok).sum())
    ctx.traces += N
    ctx.nontrivial += int((last > 1).sum())
    ctx.sample(dict(cfg, histories=N, cycles=T))


SRC = (-3.0, -1.0, -0.71, -0.5, -0.25, -0.1, 0.0, 0.13, 0.25, 0.4, 0.5, 0.77, 1.0, 1.6, 2.5)
THR = (0.05, 0.1003, 0.25, 0.5, 0.0, 1.0)


def words(ctx, mode, T, scale, thr):
    W = L.words([(0,), (1,)], T)[:, :, 0]
    for s in SRC:
        drive(ctx, W, np.full(len(W), s), mode, scale, thr)
    drive(ctx, W, np.resize(SRC, len(W)), mode, scale, thr, shape=(len(W) // 4, 4))


def reads(ctx, mode, T):
    W = L.words([(0,), (1,)], T)[:, :, 0]
    for k in range(2 ** T):
        drive(ctx, W, np.resize(SRC, len(W)), mode, 1, 0.26, reads={t + 1 for t in range(T) if k >> t & 1})


def long(ctx, mode, T, thr):
    """Stable, then disturbed for a while, then stable again."""
    H = []
    P = L.periodic([(0,), (1,)], 4, T)[:, :, 0]
    for a in P:
        for cut, ln in ((T // 4, T // 8), (T // 2, T // 3), (T - 9, 9)):
            for v in (0, 1):
                h = a.copy()
                h[cut:cut + ln] = v
                H.append(h)
    H = np.array(H)
    for off in range(3):
        drive(ctx, H, np.resize(np.roll(SRC, off * 5), len(H)), mode, 1, thr, reads={1, 2, T // 4, T // 4 + 1, T // 2, T // 2 + T // 3, T - 1})


def shapes(ctx, mode):
    W = L.words([(0,), (1,)], 6)[:, :, 0]
    for sh in ((64, 1), (1, 64), (8, 8), (2, 4, 8), (4, 2, 2, 4)):
        drive(ctx, W, np.resize(SRC, 64), mode, 1, 0.26, shape=sh)
    for i in range(0, 64, 5):
        for sh in ((1,), (1, 1), (1, 1, 1)):
            drive(ctx, W[i:i + 1], np.array([SRC[i % len(SRC)]]), mode, 2, 0.12, shape=sh)


def default(ctx):
    W = L.words([(0,), (1,)], 9)[:, :, 0]
    src = np.resize(SRC, len(W))
    a, b = ST()(torch.tensor(src, dtype=F32)), ST()(torch.tensor(src, dtype=F32), dict(scale=1, mode="bipolar", threshold=0.05))
    for t in range(9):
        for m in (a, b):
            m.Monitor(L.bits(W[:, t], F32))
        ctx.check(torch.equal(a(), b()), "defaults are not bipolar, scale 1, threshold 0.05")
    ctx.traces += len(W)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        for thr in THR:
            for scale in (1, 2) if q else (1, 2, 0.5, 4):
                cs.append(Case("words-%s-%s-%s" % (mode, thr, scale), words, mode.upper() if thr == 0.25 else mode, 9 if q else 13, scale, thr))
            cs.append(Case("long-%s-%s" % (mode, thr), long, mode, 400 if q else 1100, thr))
        cs.append(Case("reads-%s" % mode, reads, mode, 6 if q else 8))
        cs.append(Case("shapes-%s" % mode, shapes, mode))
        for s in ALL6 + (BF16, torch.uint8, torch.bool, torch.int16):
            cs.append(Case("types-%s-%s" % (mode, dt(s)), types, mode, s))
    cs.append(Case("default", default))
    return cs


def types(ctx, mode, s):
    W = L.words([(0,), (1,)], 8)[:, :, 0]
    drive(ctx, W, np.resize(SRC, len(W)), mode, 1, 0.26, s)
    T = 2100 if s == F16 else 600
    P = L.periodic([(0,), (1,)], 3, T)[:, :, 0]
    P = np.concatenate([P, np.where(np.arange(T) < T - 40, P, 0), np.where(np.arange(T) < T // 2, P, 1)])
    drive(ctx, P, np.resize(SRC, len(P)), mode, 1, 0.26, s, reads={1, 2, 255, 256, 257, 300, 511, 513, 2049})
