import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L
from ..common import *
from .c24 import ref as rnd

LEVEL = "exploration"
RULE = "one evaluation per output element; a batch holds every combination of input and hidden values of its grid"
BOUNDS = ("input and hidden sizes 1-3 (up to 33 inputs and 40 hidden units on pattern rows), every combination of input and hidden values on grids of 3-9 values in [-1,1] (and beyond for inputs), weight and bias pattern sets reaching every activation segment, "
          "hard and smooth, with and without bias, 13 fixed-point formats, missing hidden value, repeated calls; initialisation: every sequence of up to 4 normal draws over 9 values per element")
ASSUMPTIONS = ["values whose smooth activation falls within 1e-5 of a rounding tie are not compared", "double-precision reference, single-precision tolerance 4e-6 for the floating-point cell"]


def clip1(a):
    return np.clip(a, -1, 1)


def cell(x, h, Wf, bf, Wn, bn, hard, fmt=None):
    """Returns output and a mask of unambiguous rows."""
    ok = np.ones(len(x), dtype=bool)

    def q(a, fuzzy=False):
        nonlocal ok
        if fmt is None or a is None:
            return a
        if fuzzy:
            v = a * 2.0 ** fmt[1]
            near = np.abs(v - np.floor(v) - 0.5) < 1e-5 * 2.0 ** fmt[1]
            ok = ok & ~near.reshape(len(x), -1).any(1)
        return rnd(a, *fmt)

    sig = (lambda a: np.clip((a + 1) / 2, 0, 1)) if hard else (lambda a: 1 / (1 + np.exp(-a)))
    tanh = clip1 if hard else np.tanh
    lin = lambda a, W, b: a @ W.T + (0 if b is None else b)
    f = sig(q(clip1(lin(q(np.concatenate([q(h), q(x)], 1)), q(Wf), q(bf)))))
    fq = q(f, not hard)
    fh = fq * q(h)
    n = tanh(q(lin(q(np.concatenate([q(fh), q(x)], 1)), q(Wn), q(bn))))
    nq = q(n, not hard)
    fn = fq * nq
    return clip1(nq - q(fn) + q(fh)), ok


def weights(H, n, s):
    k = np.arange(H * n).reshape(H, n)
    pats = [((k * 5 + s) % 9 - 4) / 4.0, ((k * 3 + s) % 7 - 3) / 2.0, np.where((k + s) % 2, 1.0, -1.0), ((k * 7 + s) % 11 - 5) / 16.0,
            ((k + s) % 3 - 1) * 3.0, np.zeros((H, n)), np.full((H, n), 0.3)]
    return pats[s % len(pats)]


def run(ctx, I, H, hard, bias, fmt, vals, npat):
    if vals is None:        # too many inputs for all combinations: shifted patterns, one-hot and constant rows
        k = np.arange(I + H)
        V = np.array([((k * a + b) % 17 - 8) / 8.0 for a in (1, 3, 5, 7, 11) for b in range(17)] + [v * (k == j) for j in range(I + H) for v in (1.0, -0.5)] + [np.full(I + H, v) for v in (-1.0, -0.125, 0.25, 1.0)])
    else:
        V = np.array(list(itertools.product(vals, repeat=I + H)))
    if len(V) > 4096:
        V = V[::len(V) // 4096 + 1]
    x, h = V[:, :I], V[:, I:]
    if fmt is None or fmt[1] >= 3:
        x = x * 1.25      # inputs beyond the legal range, too
    # exactly representable operands
    x, h = x.astype(np.float32).astype(np.float64), h.astype(np.float32).astype(np.float64)
    cls = C.K().HardMGUCell if fmt is None else C.K().HardMGUCellFXP
    kw = {} if fmt is None else dict(intwidth=fmt[0], fracwidth=fmt[1])
    for s in range(npat):
        Wf, Wn = weights(H, H + I, s), weights(H, H + I, 3 * s + 1)
        Wf, Wn = [w.astype(np.float32).astype(np.float64) for w in (Wf, Wn)]
        bf = ((np.arange(H) + s) % 3 - 1) / 4.0 if bias else None
        bn = ((np.arange(H) + 2 * s) % 5 - 2) / 8.0 if bias else None
        c = cls(I, H, bias=bias, hard=hard, **kw)
        sh = {k: tuple(p.shape) for k, p in c.named_parameters()}
        exp_sh = dict(weight_f=(H, H + I), weight_n=(H, H + I))
        if bias:
            exp_sh.update(bias_f=(H,), bias_n=(H,))
        ctx.check(sh == exp_sh, "parameters %s" % sh, hidden=H, inputs=I)
        c.weight_f.data = torch.tensor(Wf, dtype=F32)
        c.weight_n.data = torch.tensor(Wn, dtype=F32)
        if bias:
            c.bias_f.data = torch.tensor(bf, dtype=F32)
            c.bias_n.data = torch.tensor(bn, dtype=F32)
        tx, th = torch.tensor(x, dtype=F32), torch.tensor(h, dtype=F32)
        kx, kh = tx.clone(), th.clone()
        cfg = dict(inputs=I, hidden=H, hard=hard, bias=bias, format=fmt, pattern=s)
        for hid, rep in ((th, 0), (th, 1), (None, 0)):
            hh = h if hid is not None else np.zeros_like(h)
            e, ok = cell(x, hh, Wf, bf, Wn, bn, hard, fmt)
            y = c(tx, hid) if hid is not None else c(tx)
            ctx.check(tuple(y.shape) == (len(x), H) and y.dtype == F32, "output %s %s" % (tuple(y.shape), y.dtype), **cfg)
            y = L.to_np(y)
            tol = (4e-6 if vals is not None else 4e-5) if fmt is None or (not hard) else 1e-6
            bad = np.argwhere((~(np.abs(y - e) <= tol)) & ok[:, None])
            ctx.evals += int(ok.sum()) * H
            ctx.nontrivial += int(ok.sum()) * H
            ctx.check(np.abs(y).max() <= 1, "output leaves [-1,1]: %s" % np.abs(y).max(), **cfg)
            if len(bad):
                i = tuple(int(v) for v in bad[0])
                ctx.fail("cell output %s is %s, expected %s (%d of %d differ)" % (i, y[i], e[i], len(bad), y.size), x=x[i[0]].tolist(), h=hh[i[0]].tolist(), **cfg)
            ctx.outcomes.add(hash(e.tobytes()))
            ctx.notes["rows not compared"] = ctx.notes.get("rows not compared", 0) + int((~ok).sum())
        ctx.check(torch.equal(tx, kx) and torch.equal(th, kh), "the cell modified its inputs", **cfg)
    ctx.sample(dict(cfg, rows=len(x)))


def sequence(ctx, hard, fmt, T):
    """All short input sequences through the recurrence."""
    cls = C.K().HardMGUCell if fmt is None else C.K().HardMGUCellFXP
    kw = {} if fmt is None else dict(intwidth=fmt[0], fracwidth=fmt[1])
    X = np.array(list(itertools.product((-1.0, -0.25, 0.5, 1.0), repeat=T)))
    for s in range(4):
        Wf, Wn = weights(2, 3, s).astype(np.float32).astype(float), weights(2, 3, s + 2).astype(np.float32).astype(float)
        c = cls(1, 2, bias=False, hard=hard, **kw)
        c.weight_f.data, c.weight_n.data = torch.tensor(Wf, dtype=F32), torch.tensor(Wn, dtype=F32)
        h, th = np.zeros((len(X), 2)), None
        ok = np.ones(len(X), dtype=bool)
        for t in range(T):
            h, o = cell(X[:, t:t + 1], h, Wf, None, Wn, None, hard, fmt)
            ok &= o
            xt = torch.tensor(X[:, t:t + 1], dtype=F32)
            th = c(xt) if th is None else c(xt, th)
            d = np.abs(L.to_np(th) - h)[ok]
            ctx.evals += d.size
            ctx.nontrivial += d.size
            ctx.check(d.size == 0 or d.max() <= 2e-5, "after %d steps the hidden value is off by %s" % (t + 1, d.max() if d.size else 0), hard=hard, format=fmt, pattern=s)
            if fmt is not None:
                h = L.to_np(th)        # the fed-back value is the one compared above
        ctx.outcomes.add(hash(h.tobytes()))


class Tape:
    """Replaces the normal distribution by scripted draws: call k gives element i its k-th draw."""

    def __init__(self, rows):
        self.rows, self.k = rows, 0

    def __enter__(self):
        self.orig = torch.Tensor.normal_
        tape = self

        def normal_(t, mean=0.0, std=1.0, *, generator=None):
            n = t.numel()
            z = tape.rows[:, tape.k] if tape.k < tape.rows.shape[1] else np.zeros(len(tape.rows))
            tape.k += 1
            z = torch.tensor(np.resize(z, n), dtype=torch.float64).reshape(t.shape).to(t.dtype)
            with torch.no_grad():
                t.copy_(z * std + mean)
            return t
        torch.Tensor.normal_ = normal_
        return self

    def __exit__(self, *a):
        torch.Tensor.normal_ = self.orig


Z = (-3.5, -2.25, -2.0, -1.0, 0.0, 0.75, 2.0, 2.0625, 4.0)


def initial(ctx, k, mean, std):
    rows = np.array(list(itertools.product(Z, repeat=k)))
    from UnarySim.kernel.utils import truncated_normal
    for shape in ((len(rows),), (len(rows) // 9, 9)):
        with Tape(rows):
            t = truncated_normal(torch.empty(shape), mean=mean, std=std)
        ctx.evals += t.numel()
        ctx.nontrivial += t.numel()
        a = L.to_np(t).ravel()
        ctx.check(tuple(t.shape) == shape, "shape %s" % (tuple(t.shape),))
        far = np.abs(a - mean) > 2 * std * (1 + 1e-6)
        if far.any():
            i = int(np.argmax(far))
            ctx.fail("a draw of %s (mean %s, deviation %s) survives truncation" % (a[i], mean, std), draws=rows[i].tolist())
    ctx.outcomes.add((k, mean, std, hash(a.tobytes())))
    ctx.sample(dict(draw_sequences=len(rows), mean=mean, std=std))


def fresh(ctx, fxp):
    """Fresh cells under scripted and under real random draws."""
    cls = C.K().HardMGUCellFXP if fxp else C.K().HardMGUCell
    rows = np.array(list(itertools.product(Z, repeat=2)))
    for H, I, bias in itertools.product((1, 2, 4, 7, 16), (1, 3, 8), (True, False)):
        for off in range(0, 81, 9):
            with Tape(np.roll(rows, -off, axis=0)):
                c = cls(I, H, bias=bias)
            for k, p in c.named_parameters():
                m = float(p.detach().abs().max())
                ctx.check(m <= 2 / np.sqrt(H) * (1 + 1e-6), "fresh %s reaches %s with hidden size %d" % (k, m, H), inputs=I, bias=bias)
                ctx.nontrivial += p.numel()
        for seed in range(3):
            torch.manual_seed(seed)
            c = cls(I, H, bias=bias)
            for k, p in c.named_parameters():
                m = float(p.detach().abs().max())
                ctx.check(0 < m <= 2 / np.sqrt(H) * (1 + 1e-6), "fresh %s reaches %s with hidden size %d" % (k, m, H), inputs=I, bias=bias)
        ctx.outcomes.add((H, I, bias))


def cases(tier):
    q = tier != "thorough"
    cs = []
    v9 = tuple(np.arange(-4, 5) / 4.0)
    v5 = (-1.0, -0.6, 0.0, 0.35, 1.0)
    v3 = (-1.0, 0.3, 0.875)
    fmts = [None, (3, 4), (0, 3), (1, 2), (2, 5), (0, 6), (3, 0), (4, 4), (1, 7), (2, 8), (0, 10), (5, 6), (3, 9)]
    for fmt in fmts:
        for hard in (True, False):
            for bias in (True, False):
                nm = "%s-%s-%s" % ("float" if fmt is None else "fxp%d.%d" % fmt, "hard" if hard else "smooth", "bias" if bias else "nobias")
                for I, H, vals in ((1, 1, v9 if q else tuple(np.arange(-16, 17) / 16.0)), (2, 1, v9), (1, 2, v9), (2, 2, v5), (3, 3, v3), (3, 1, v5), (1, 3, v5)):
                    cs.append(Case("cell-%s-%d-%d" % (nm, I, H), run, I, H, hard, bias, fmt, vals, 7 if q else 21))
                for I, H in ((5, 4), (4, 9), (17, 8), (33, 16), (2, 40)):
                    if fmt in (None, (3, 4), (1, 7), (2, 8)) or not q:
                        cs.append(Case("cell-wide-%s-%d-%d" % (nm, I, H), run, I, H, hard, bias, fmt, None, 7 if q else 21))
            cs.append(Case("sequence-%s-%s" % (fmt, hard), sequence, hard, fmt, 4 if q else 5))
    for k in (1, 2, 3, 4):
        for mean, std in ((0.0, 1.0), (0.0, 0.01), (0.5, 0.25)):
            cs.append(Case("initial-%d-%s-%s" % (k, mean, std), initial, k, mean, std))
    cs.append(Case("fresh-float", fresh, False))
    cs.append(Case("fresh-fxp", fresh, True))
    return cs
