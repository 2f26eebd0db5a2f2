import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("all pairs of bit histories of length 7 (quick) / 9 (thorough) with reads after every cycle, every subset of 5 reads, all single histories of length 12 against their own delay, "
          "long periodic pairs up to 600 cycles; identical, complementary and constant streams; six data types, shapes of 0-4 dimensions")
ASSUMPTIONS = ["single-precision tolerance 1e-6 on the reported value"]


def CO():
    import UnarySim.metric.metric as m
    return m.Correlation


def scc(a, b, c, d, n):
    x = a * d - b * c
    pos = np.maximum(n * np.minimum(a + b, a + c) - (a + b) * (a + c), 1)
    neg = np.maximum((a + b) * (a + c) - n * np.maximum(a - d, 0), 1)
    return np.where(x > 0, x / pos, x / neg)


def drive(ctx, X, Y=None, stype=F32, reads=None, shape=None):
    """X, Y [N, T]; Y None: single-stream mode."""
    N, T = X.shape
    shape = shape if shape is not None else (N,)
    m = CO()()
    a, b, c, d = (np.zeros(N) for _ in range(4))
    prev = np.zeros(N, dtype=np.int64)
    cfg = dict(single=Y is None, stype=str(stype), shape=shape)
    for t in range(T):
        x = X[:, t]
        y = prev if Y is None else Y[:, t]
        ix = L.bits(x, stype).reshape(shape)
        kx = ix.clone()
        if Y is None:
            m.Monitor(ix)
        else:
            iy = L.bits(y, stype).reshape(shape)
            ky = iy.clone()
            m.Monitor(ix, iy)
            ctx.check(torch.equal(iy, ky), "Monitor modified its second input", **cfg)
        ctx.check(torch.equal(ix, kx), "Monitor modified its input", **cfg)
        # the caller's tensor may be reused
        if t % 2:
            ix.fill_(1)
        prev = x
        a += x & y
        b += x & (1 - y)
        c += (1 - x) & y
        d += (1 - x) & (1 - y)
        ctx.states.update(zip(a.tolist(), b.tolist(), c.tolist(), d.tolist()))
        if reads is None or t in reads or t == T - 1:
            e = scc(a, b, c, d, t + 1.0)
            for _ in range(1 + t % 2):
                g = m()
                ctx.check(tuple(g.shape) == shape, "correlation has shape %s, expected %s" % (tuple(g.shape), shape), **cfg)
                g = L.to_np(g).reshape(-1)
                ctx.evals += N
                bad = np.nonzero(~(np.abs(g - e) <= 1e-6))[0]
                if len(bad):
                    i = int(bad[0])
                    ctx.fail("correlation after %d cycles is %s, expected %s (11:%d 10:%d 01:%d 00:%d)" % (t + 1, g[i], e[i], a[i], b[i], c[i], d[i]),
                             first=X[i, :t + 1].tolist(), second=None if Y is None else Y[i, :t + 1].tolist(), **cfg)
            ctx.outcomes.add(hash((t, e.tobytes())))
    ctx.n_trans += N * T
    ctx.traces += N
    ctx.nontrivial += N
    ctx.sample(dict(cfg, histories=N, cycles=T))
    return g


def pairs(ctx, T, stype):
    W = L.words([(0, 0), (0, 1), (1, 0), (1, 1)], T)
    g = drive(ctx, W[:, :, 0], W[:, :, 1], stype)
    h = drive(ctx, W[:, :, 1], W[:, :, 0], stype, reads=())
    ctx.check(np.abs(g - h).max() <= 1e-6, "not symmetric in the two streams")
    x, y = W[:, :, 0], W[:, :, 1]
    const = lambda v: (v.min(1) == v.max(1))
    same = (x == y).all(1) & ~const(x)
    comp = (x != y).all(1) & ~const(x)
    ctx.check(np.allclose(g[same], 1, atol=1e-6), "identical streams do not correlate fully")
    ctx.check(np.allclose(g[comp], -1, atol=1e-6), "complementary streams do not anticorrelate fully")
    ctx.check(np.allclose(g[const(x) | const(y)], 0, atol=1e-6), "a constant stream correlates")
    ctx.check((np.abs(g) <= 1 + 1e-6).all(), "correlation leaves [-1,1]")


def single(ctx, T, stype):
    W = L.words([(0,), (1,)], T)[:, :, 0]
    drive(ctx, W, None, stype)


def reads(ctx, T):
    W = L.words([(0, 0), (0, 1), (1, 0), (1, 1)], T)
    V = L.words([(0,), (1,)], T)[:, :, 0]
    for k in range(2 ** T):
        r = {t for t in range(T) if k >> t & 1}
        drive(ctx, W[:, :, 0], W[:, :, 1], reads=r)
        drive(ctx, V, None, reads=r)


def long(ctx, T, mp):
    P = L.periodic([(0,), (1,)], mp, T)[:, :, 0]
    X, Y = np.repeat(P, len(P), axis=0), np.tile(P, (len(P), 1))
    drive(ctx, X, Y, reads={9, 100, 255, T - 1})
    drive(ctx, P, None, reads={9, 100, 255, T - 1})
    Z = Y.copy()
    Z[:, T // 3:] = 1 - Z[:, T // 3:]
    drive(ctx, X, Z, reads={T // 3, T // 2})


def shapes(ctx):
    W = L.words([(0, 0), (0, 1), (1, 0), (1, 1)], 4)
    for sh in ((256, 1), (1, 256), (16, 16), (4, 8, 8), (2, 4, 8, 4)):
        drive(ctx, W[:, :, 0], W[:, :, 1], shape=sh)
        drive(ctx, W[:, :, 0], None, shape=sh)
    for i in range(0, 256, 9):
        for sh in ((1,), (1, 1), (1, 1, 1)):
            drive(ctx, W[i:i + 1, :, 0], W[i:i + 1, :, 1], shape=sh)
            drive(ctx, W[i:i + 1, :, 0], None, shape=sh)


def cases(tier):
    q = tier != "thorough"
    cs = []
    for s in ALL6:
        cs.append(Case("pairs-%s" % dt(s), pairs, 7 if q or s != F32 else 10, s))
        cs.append(Case("single-%s" % dt(s), single, 12 if q else 16, s))
    cs.append(Case("reads", reads, 5 if q else 6))
    cs.append(Case("long", long, 600, 5 if q else 6))
    cs.append(Case("shapes", shapes))
    return cs
