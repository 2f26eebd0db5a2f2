import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("all bit histories of length 10 (quick) / 14 (thorough) with reads after every cycle and after every subset of 6 cycles, long periodic histories up to 1100 cycles; sources on a grid reaching "
          "beyond the range, scales 0.5-8, both modes, ten stream data types (each also over 600-2100 cycles), shapes of 1-4 dimensions")
ASSUMPTIONS = ["single-precision tolerance 3e-7 on the reported values", "values are read immediately (a report is a live view)"]
TOL = 3e-7


def PE():
    import UnarySim.metric.metric as m
    return m.ProgError


def reference(ones, t, mode, source, scale):
    pp = ones / t
    if mode == "bipolar":
        pp = 2 * pp - 1
    return pp, pp - np.clip(source / scale, -1, 1)


def observe(ctx, m, ones, t, mode, src, scale, shape, cfg, hist):
    pp, pe = m()
    epp, epe = reference(ones, t, mode, src, scale)
    for nm, g, e in (("precision", pp, epp), ("error", pe, epe)):
        ctx.check(tuple(g.shape) == shape, "progressive %s has shape %s, expected %s" % (nm, tuple(g.shape), shape), **cfg)
        d = np.abs(L.to_np(g).reshape(-1) - e)
        ctx.evals += d.size
        if not (d <= TOL).all():
            i = int(np.argmax(~(d <= TOL)))
            ctx.fail("progressive %s after %d cycles is %s, expected %s" % (nm, t, L.to_np(g).reshape(-1)[i], e[i]), source=float(src[i]), history=hist[i, :t].tolist(), lane=i, **cfg)
    ctx.outcomes.add(hash((t, epe.tobytes())))


def drive(ctx, bits, src, mode, scale, stype=F32, reads=None, shape=None, sdtype=F32):
    """bits [N, T], src [N]; reads: set of cycles to read after (None: all)."""
    N, T = bits.shape
    shape = shape or (N,)
    ts = torch.tensor(src, dtype=sdtype).reshape(shape)
    src = ts.double().numpy().reshape(-1)
    keep = ts.clone()
    cfg = dict(mode=mode, scale=scale, stype=str(stype), shape=shape)
    hw = dict(scale=scale, mode=mode)
    m = PE()(ts, hw)
    ones = np.zeros(N)
    for t in range(T):
        b = L.bits(bits[:, t], stype).reshape(shape)
        kb = b.clone()
        m.Monitor(b)
        ctx.check(torch.equal(b, kb), "Monitor modified its input", **cfg)
        ones = ones + bits[:, t]
        if reads is None or t in reads or t == T - 1:
            observe(ctx, m, ones, t + 1, mode.lower(), src, scale, shape, cfg, bits)
            if t % 3 == 1:
                observe(ctx, m, ones, t + 1, mode.lower(), src, scale, shape, cfg, bits)
        ctx.states.update((t + 1, float(o)) for o in np.unique(ones))
        ctx.trans.update((t, float(o), int(x)) for o, x in set(zip((ones - bits[:, t]).tolist(), bits[:, t].tolist())))
    ctx.check(torch.equal(ts, keep) and hw == dict(scale=scale, mode=mode), "arguments were modified", **cfg)
    ctx.traces += N
    ctx.nontrivial += N
    ctx.sample(dict(cfg, histories=N, cycles=T))


SRC = (-3.0, -1.0, -0.7, -0.25, 0.0, 0.1, 0.5, 1.0, 1.9)


def words(ctx, mode, T, scale, stype):
    W = L.words([(0,), (1,)], T)[:, :, 0]
    for s in SRC:
        drive(ctx, W, np.full(len(W), s), mode, scale, stype)
    drive(ctx, W, np.resize(SRC, len(W)), mode, scale, stype, shape=(2, len(W) // 2))


def reads(ctx, mode, T):
    """Reports read after every subset of the cycles."""
    W = L.words([(0,), (1,)], T)[:, :, 0]
    for k in range(2 ** T):
        drive(ctx, W, np.resize(SRC, len(W)), mode, 2, F32, reads={t for t in range(T) if k >> t & 1})


def long(ctx, mode, T, maxp, scale, stype=F32):
    P = L.periodic([(0,), (1,)], maxp, T)[:, :, 0]
    drive(ctx, P, np.resize(SRC, len(P)), mode, scale, stype, reads={1, 99, 255, 511, T - 1})


def shapes(ctx, mode):
    W = L.words([(0,), (1,)], 6)[:, :, 0]
    for sh in ((64, 1), (1, 64), (8, 8), (2, 4, 8), (4, 2, 2, 4)):
        drive(ctx, W, np.resize(SRC, 64), mode, 1, F32, shape=sh)
    for i in range(0, 64, 7):
        for sh in ((1,), (1, 1), (1, 1, 1)):
            drive(ctx, W[i:i + 1], np.array([SRC[i % len(SRC)]]), mode, 3, F32, shape=sh)


def default(ctx):
    """Defaults: bipolar, scale 1."""
    W = L.words([(0,), (1,)], 8)[:, :, 0]
    src = np.resize(SRC, len(W))
    m = PE()(torch.tensor(src, dtype=F32))
    ones = np.zeros(len(W))
    for t in range(8):
        m.Monitor(L.bits(W[:, t], F32))
        ones += W[:, t]
        observe(ctx, m, ones, t + 1, "bipolar", src, 1, (len(W),), {}, W)
    ctx.traces += len(W)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        for scale in (1, 0.5, 2, 3, 8):
            cs.append(Case("words-%s-%s" % (mode, scale), words, mode.upper() if scale == 3 else mode, 10 if q else 14, scale, F32))
        for s in ALL6:
            cs.append(Case("types-%s-%s" % (mode, dt(s)), words, mode, 8, 2, s))
        cs.append(Case("reads-%s" % mode, reads, mode, 6 if q else 8))
        for scale in (1, 4):
            cs.append(Case("long-%s-%s" % (mode, scale), long, mode, 1100, 7 if q else 9, scale))
        for s in ALL6[1:] + (BF16, torch.uint8, torch.bool, torch.int16):
            cs.append(Case("long-%s-%s" % (mode, dt(s)), long, mode, 2100 if s == F16 else 600, 3 if q else 5, 2, s))
        cs.append(Case("shapes-%s" % mode, shapes, mode))
    cs.append(Case("default", default))
    return cs
