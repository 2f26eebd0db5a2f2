import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, models as M
from ..common import *

LEVEL = "exploration"
RULE = "one evaluation per generated bit: every binary value x every cycle index"
BOUNDS = "widths 0-8, every binary value 0..2^width, every cycle index over three periods plus far indices, all deterministic kinds, lfsr and sys, all output types, mixed per-element indices, all orders of 5 calls; widths 9-12 and 16 on every value"
ASSUMPTIONS = ["cycle indices are non-negative and exactly representable in their type"]
CAP = {F32: 24, F64: 30, F16: 11, I8: 6, I32: 30, I64: 30}


def rng(kind, width, dim=1, rtype=F32):
    return C.S().RNG(dict(width=width, dimr=dim, rng=kind), dict(rtype=rtype))()


def bitcheck(ctx, out, exp, stype, shape, info):
    ctx.check(out.dtype == stype, "bit data type is %s" % out.dtype, **info)
    ctx.check(tuple(out.shape) == tuple(shape), "output shape is %s" % (tuple(out.shape),), **info)
    o = out.detach().double().numpy()
    ctx.evals += o.size
    bad = np.argwhere(o != exp)
    if len(bad):
        i = tuple(bad[0])
        ctx.fail("bit is %s, expected %s" % (o[i], exp[i]), index=i, **info)
    return o


def table(ctx, kind, width, dim, stypes, rtypes):
    n = 2 ** width
    for r in rtypes:
        if width > CAP[r]:
            continue
        seq = rng(kind, width, dim, r)
        s = seq.detach().double().numpy()
        if kind in M_DET:
            ctx.check(np.array_equal(s, M.rng_seq(kind, width, dim)), "unexpected random sequence", kind=kind, width=width, dim=dim)
        vals = np.arange(n + 1)
        b = torch.tensor(vals).type(r)
        for st in stypes:
            g = C.S().BSGen(b, seq, dict(stype=st))
            rows = []
            for t in range(3 * n):
                info = dict(kind=kind, width=width, dimr=dim, cycle=t, stype=dt(st), rtype=dt(r))
                cyc = torch.full((n + 1,), t, dtype=torch.long if t % 2 else torch.float)
                exp = (vals > s[t % n]).astype(float)
                rows.append(bitcheck(ctx, g(cyc), exp, st, (n + 1,), info))
            for t in (n * 1000, n * 1000 + n - 1, 2 ** 23 + 1):
                info = dict(kind=kind, width=width, dimr=dim, cycle=t, stype=dt(st), rtype=dt(r))
                bitcheck(ctx, g(torch.full((n + 1,), t, dtype=torch.long)), (vals > s[t % n]).astype(float), st, (n + 1,), info)
            # a single cycle index serves all elements
            for t in (0, 1, n, n + 1):
                bitcheck(ctx, g(torch.tensor([t])), (vals > s[t % n]).astype(float), st, (n + 1,),
                         dict(kind=kind, width=width, cycle=t, broadcast=True))
            R = np.array(rows)
            ctx.nontrivial += R.size
            ctx.outcomes.add((kind, width, dim, R.tobytes()))
            if sorted(s.tolist()) == list(range(n)):
                c = np.cumsum(np.vstack([np.zeros((1, n + 1)), R]), axis=0)
                for start in range(2 * n + 1):
                    ctx.check(np.array_equal(c[start + n] - c[start], vals), "%d cycles from cycle %d do not hold exactly the binary value in ones" % (n, start),
                              kind=kind, width=width, dimr=dim)
    ctx.sample(dict(kind=kind, width=width, dim=dim, values=n + 1, cycles=3 * n))


M_DET = ("sobol", "rc", "race", "tc", "race10", "tc10")


def wide(ctx, kind, width):
    """Wide generators: all binary values (or the ends and an even spread) x every cycle of a period."""
    n = 2 ** width
    vals = np.arange(n + 1)
    if width > 10:
        vals = np.unique(np.concatenate([vals[:40], vals[-40:], vals[::n // 64], vals[1::n // 64]]))
    seq = rng(kind, width, 1)
    s = seq.detach().double().numpy()
    if kind in M_DET:
        ctx.check(np.array_equal(s, M.rng_seq(kind, width, 1)), "unexpected random sequence", kind=kind, width=width)
    g = C.S().BSGen(torch.tensor(vals).float(), seq, dict(stype=F32))
    acc = np.zeros(len(vals))
    for t in range(n):
        o = g(torch.full((len(vals),), t if t % 2 else t + n, dtype=torch.long))
        acc += bitcheck(ctx, o, (vals > s[t]).astype(float), F32, (len(vals),), dict(kind=kind, width=width, cycle=t))
    # every element with its own index, at once
    tt = torch.arange(n)
    for v in vals[::max(1, len(vals) // 40)]:
        bitcheck(ctx, C.S().BSGen(torch.full((n,), float(v)), seq, dict(stype=I8))(tt), (v > s).astype(float), I8, (n,), dict(kind=kind, width=width, value=int(v)))
    if kind != "lfsr":
        ctx.check(np.array_equal(acc, vals), "a period does not hold exactly the binary value in ones", kind=kind, width=width)
    ctx.nontrivial += len(vals) * n
    ctx.outcomes.add((kind, width, acc.tobytes()))


def each_own(ctx, kind, width):
    """Every (value, cycle) pair as its own element, in several shapes and orders."""
    n = 2 ** width
    seq = rng(kind, width, 2)
    s = seq.detach().double().numpy()
    v, t = np.meshgrid(np.arange(n + 1), np.arange(2 * n), indexing="ij")
    exp = (v > s[t % n]).astype(float)
    for perm in ((0, 1), (1, 0)):
        vv, tt, ee = v.transpose(perm), t.transpose(perm), exp.transpose(perm)
        for extra in ((), (1,), (1, 1)):
            for tt_t in (torch.long, torch.float, torch.int32, torch.float64):
                B = torch.tensor(np.ascontiguousarray(vv)).float().reshape(extra + vv.shape)
                T = torch.tensor(np.ascontiguousarray(tt)).to(tt_t).reshape(extra + tt.shape)
                k = T.clone()
                g = C.S().BSGen(B, seq, dict(stype=F32))
                bitcheck(ctx, g(T), ee.reshape(extra + ee.shape), F32, extra + ee.shape, dict(kind=kind, width=width, shape=extra + ee.shape, index_type=dt(tt_t)))
                ctx.check(torch.equal(k, T), "cycle indices were modified")
                ctx.nontrivial += ee.size


def orders(ctx, kind, width):
    """A generator has no memory: any order of calls gives the same bits."""
    n = 2 ** width
    seq = rng(kind, width, 3)
    s = seq.detach().double().numpy()
    vals = np.arange(n + 1)
    for order in itertools.permutations((0, 1, n - 1, n, n + 2)):
        g = C.S().BSGen(torch.tensor(vals).float(), seq, dict(stype=F32))
        outs = [g(torch.full((n + 1,), t)) for t in order]
        for t, o in zip(order, outs):
            bitcheck(ctx, o, (vals > s[t % n]).astype(float), F32, (n + 1,), dict(kind=kind, width=width, order=order, cycle=t))
        ctx.nontrivial += 1


def chain(ctx, width, mode):
    """Source -> binary -> stream: the stream of any window of one period decodes to the quantised source."""
    n = 2 ** width
    src = torch.arange(0, 4 * n + 1).double().div(4 * n)
    if mode == "bipolar":
        src = src * 2 - 1
    want = M.quantize(src.numpy(), width, mode)
    for kind in M_DET + ("sys",):
        for r in (F32, I64):
            seq = rng(kind, width, 1, r)
            b = C.S().BinGen(src.float(), dict(width=width, mode=mode), dict(rtype=r))()
            g = C.S().BSGen(b, seq, dict(stype=I8))
            for start in (0, 1, n // 2, n - 1):
                ones = sum(g(torch.full(src.shape, start + t)).long() for t in range(n)).numpy()
                ctx.check(np.array_equal(ones, want), "ones in a period differ from the quantised source", kind=kind, width=width, mode=mode, start=start)
                ctx.nontrivial += 1
                ctx.evals += src.numel()


def patterns(ctx, kind, width, k):
    """Every vector of k cycle indices, as one call: each element reads its own index."""
    n = 2 ** width
    seq = rng(kind, width, 2)
    s = seq.detach().double().numpy()
    for vals in (np.full(k, n // 2), np.arange(k) % (n + 1), np.arange(k)[::-1] * 2 % (n + 1)):
        for idx in itertools.product((0, 1, n - 1, n, n + 2), repeat=k):
            idx = np.array(idx)
            exp = (vals > s[idx % n]).astype(float)
            shapes = [(k,), (1, k), (k, 1)] + ([(2, k // 2)] if k % 2 == 0 else [])
            for sh in shapes:
                g = C.S().BSGen(torch.tensor(vals).float().reshape(sh), seq, dict(stype=F32))
                bitcheck(ctx, g(torch.tensor(idx).reshape(sh)), exp.reshape(sh), F32, sh, dict(kind=kind, width=width, indices=idx.tolist(), values=vals.tolist(), shape=sh))
    ctx.nontrivial += 5 ** k


def cases(tier):
    q = tier != "thorough"
    cs = []
    for kind in M_DET + ("lfsr", "sys"):
        for w in range(2 if kind == "lfsr" else 0, 8 if q else 10):
            cs.append(Case("table-%s-w%d" % (kind, w), table, kind, w, 1, ALL6 if w <= 5 else (F32, I8), ALL6 if w <= 4 else (F32,)))
        if kind != "lfsr":
            cs.append(Case("table-%s-w8" % kind, table, kind, 8, 2, (F32,), (F32,)))
        for w in (2, 4) + (() if q else (6,)):
            cs.append(Case("own-%s-w%d" % (kind, w), each_own, kind, w))
        cs.append(Case("orders-%s" % kind, orders, kind, 3))
    for kind in M_DET + ("sys", "lfsr"):
        for w in (9, 10, 11, 12) if q else (9, 10, 11, 12, 13):
            cs.append(Case("wide-%s-w%d" % (kind, w), wide, kind, w))
    cs.append(Case("wide-sobol-w16", wide, "sobol", 16))
    for d in (2, 3, 4, 7, 12):
        cs.append(Case("table-sobol-w5-d%d" % d, table, "sobol", 5, d, (F32,), (F32,)))
    for mode in ("unipolar", "bipolar"):
        for w in (1, 3, 5, 7):
            cs.append(Case("chain-%s-w%d" % (mode, w), chain, w, mode))
    for kind in ("sobol", "race", "tc10"):
        for k in (2, 3, 4, 5):
            cs.append(Case("patterns-%s-%d" % (kind, k), patterns, kind, 3, k))
    return cs
