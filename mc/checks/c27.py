import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("every weight tensor of 1-5 elements over a 9-value alphabet (ties, out-of-range, negative, constant), bit widths 1-10, both modes; call sequences of length 1-4 from initial counters 0-3 with "
          "every module order, modules with weight and bias, weight only, bias only, neither; layers of the library and of the framework")
ASSUMPTIONS = ["normalised values are not within 1e-4 of a rounding tie unless exactly representable"]


def quantise(u, mode, bits):
    s = 2.0 ** bits if mode == "unipolar" else 2.0 ** (bits - 1)
    lo = 0.0 if mode == "unipolar" else -1.0
    v = np.clip(u, lo, 1.0) * s
    amb = np.abs(v - np.floor(v) - 0.5)
    amb = (amb < 1e-4) & (amb > 0)
    return np.rint(v) / s, amb


def expect(w, mode, bits, norm):
    """Reference for one call; second value marks elements too close to a tie to predict."""
    w = np.asarray(w, dtype=np.float64)
    if norm and w.max() > w.min():
        u = (w - w.min()) / (w.max() - w.min())
        if mode == "bipolar":
            u = 2 * u - 1
        s = 2.0 ** bits if mode == "unipolar" else 2.0 ** (bits - 1)
        v = u * s
        amb = np.abs(v - np.floor(v) - 0.5) < 1e-4
        dyadic = np.log2(w.max() - w.min()) % 1 == 0
        e, _ = quantise(u, mode, bits)
        return e, amb & (not dyadic)
    return quantise(w, mode, bits)


def clipper(freq, mode, bits):
    return C.K().NN_SC_Weight_Clipper(frequency=freq, mode=mode, bitwidth=bits)


class Mod(torch.nn.Module):
    def __init__(self, w=None, b=None):
        super().__init__()
        if w is not None:
            self.weight = torch.nn.Parameter(torch.tensor(np.asarray(w), dtype=F32))
        if b is not None:
            self.bias = torch.nn.Parameter(torch.tensor(np.asarray(b), dtype=F32))


def check(ctx, got, w, mode, bits, norm, cfg):
    e, amb = expect(w, mode, bits, norm)
    g = L.to_np(got)
    ctx.check(g.shape == e.shape and got.dtype == F32, "clipped shape %s" % (g.shape,), **cfg)
    s = 2.0 ** bits if mode == "unipolar" else 2.0 ** (bits - 1)
    ctx.check(np.isfinite(g).all() and ((g * s) == np.rint(g * s)).all() and g.max() <= 1 and g.min() >= (0 if mode == "unipolar" else -1),
              "illegal values %s after clipping %s" % (g.ravel().tolist(), np.asarray(w).ravel().tolist()), **cfg)
    bad = np.argwhere((g != e) & ~amb)
    ctx.evals += g.size
    ctx.nontrivial += g.size
    if len(bad):
        i = tuple(int(v) for v in bad[0])
        ctx.fail("value %s became %s, expected %s" % (np.asarray(w)[i], g[i], e[i]), tensor=np.asarray(w).tolist(), **cfg)
    if amb.any():
        bad = np.abs(g - e)[amb] > 1.0 / s + 1e-9
        ctx.check(not bad.any(), "rounding of a near tie is off by more than a step", tensor=np.asarray(w).tolist(), **cfg)
    return g


VALS = (-1.5, -1.0, -0.625, -0.25, 0.0, 0.1875, 0.5, 0.8, 1.75)


def tensors(ctx, mode, bits, n, shape, vals, norm):
    for w in itertools.product(vals, repeat=n):
        w = np.array(w).astype(np.float32).astype(np.float64).reshape(shape)
        m = Mod(w, w.ravel()[::-1].copy() * 0.5)
        c = clipper(0 if norm else 2, mode, bits)
        cfg = dict(mode=mode, bits=bits, normalise=norm)
        c(m)
        g = check(ctx, m.weight, w, mode, bits, norm, cfg)
        check(ctx, m.bias, (w.ravel()[::-1] * 0.5), mode, bits, norm, cfg)
        keep = m.weight.detach().clone()
        if not norm:
            c(m)
            ctx.check(torch.equal(m.weight, keep), "clipping is not idempotent", tensor=w.tolist(), **cfg)
        ctx.outcomes.add(hash((mode, bits, norm, g.tobytes())))
        ctx.traces += 1


def fine(ctx, mode, bits):
    """Every quarter step over and beyond the range, clip mode, all at once; then the same under normalisation."""
    s = 2.0 ** bits if mode == "unipolar" else 2.0 ** (bits - 1)
    x = np.arange(int(-1.5 * s * 4), int(1.5 * s * 4) + 1) / (4 * s)
    for freq in range(0, 6):
        c = clipper(freq, mode, bits)
        m = Mod(x.reshape(1, -1), x)
        c(m)
        check(ctx, m.weight, x.reshape(1, -1), mode, bits, freq <= 1, dict(mode=mode, bits=bits, counter=freq))
        check(ctx, m.bias, x, mode, bits, freq <= 1, dict(mode=mode, bits=bits, counter=freq))
        ctx.traces += 1
    # normalisation of exact power-of-two ranges: every tie is decided
    r = np.arange(0, int(s * 4) + 1) / (4 * s)
    for off, mul in ((0.0, 1.0), (-0.5, 1.0), (-2.0, 4.0), (3.0, 0.5)):
        w = r * mul + off
        c = clipper(1, mode, bits)
        m = Mod(w, w[::-1].copy())
        c(m)
        check(ctx, m.weight, w, mode, bits, True, dict(mode=mode, bits=bits, range=(off, mul)))
        check(ctx, m.bias, w[::-1], mode, bits, True, dict(mode=mode, bits=bits, range=(off, mul)))
        ctx.traces += 1
    ctx.sample(dict(mode=mode, bits=bits, values=len(x)))
    ctx.outcomes.add((mode, bits))


def fresh_mods():
    return [Mod([[-1.5, 0.3], [0.8, 0.05]], [0.9, -0.2]), Mod([[0.4, -3.0, 0.2]]), Mod(None, [0.7]), Mod(), Mod([[0.25]], [0.0]), Mod(np.zeros((2, 3)), np.full(2, 0.3)), Mod([[-2.0]], [5.0])]


def sequences(ctx, mode, bits, freq, T):
    """All orders of modules: the counter decides the method of each call."""
    n = len(fresh_mods())
    for seq in itertools.product(range(n), repeat=T):
        c = clipper(freq, mode, bits)
        mods = fresh_mods()
        cur = [{k: p.detach().double().numpy().copy() for k, p in m.named_parameters()} for m in mods]
        for t, i in enumerate(seq):
            c(mods[i])
            cfg = dict(mode=mode, bits=bits, counter=freq, calls=seq[:t + 1])
            for j, m in enumerate(mods):
                for k, p in m.named_parameters():
                    if j == i:
                        cur[j][k] = check(ctx, p, cur[j][k], mode, bits, freq + t <= 1, cfg)
                    else:
                        ctx.check(np.array_equal(L.to_np(p), cur[j][k]), "another module's %s changed" % k, **cfg)
            ctx.trans.add((freq + t > 1, i, t))
            ctx.states.add((min(freq + t, 2), tuple(sorted(set(seq[:t + 1])))))
        ctx.traces += 1
        ctx.outcomes.add(hash(str([sorted((k, v.tobytes()) for k, v in d.items()) for d in cur])))
    ctx.sample(dict(mode=mode, bits=bits, counter=freq, sequences=n ** T, length=T))


def layers(ctx, mode):
    nn = torch.nn
    for bias in (True, False):
        for make in (lambda: nn.Linear(3, 2, bias=bias), lambda: nn.Conv2d(1, 2, 2, bias=bias), lambda: nn.Linear(2, 1, bias=bias), lambda: C.K().HUBLinear(2, 3, bias=bias), lambda: C.K().FXPLinear(2, 3, bias=bias)):
            for freq in (0, 1, 2, 7):
                torch.manual_seed(freq)
                m = make()
                w = m.weight.detach().double().numpy().copy()
                b = m.bias.detach().double().numpy().copy() if bias else None
                wid, bid = m.weight, m.bias
                c = clipper(freq, mode, 4)
                c(m)
                cfg = dict(mode=mode, layer=str(m), counter=freq)
                ctx.check(m.weight is wid and m.bias is bid and m.weight.requires_grad, "parameters were replaced", **cfg)
                check(ctx, m.weight, w, mode, 4, freq <= 1, cfg)
                if bias:
                    check(ctx, m.bias, b, mode, 4, freq <= 1, cfg)
                ctx.traces += 1
        net = nn.Sequential(nn.Linear(2, 2, bias=bias), nn.ReLU(), nn.Linear(2, 1, bias=bias), nn.BatchNorm1d(1))
        net.apply(clipper(2, mode, 5))
        for p in net.parameters():
            check(ctx, p, L.to_np(p), mode, 5, False, dict(mode=mode, net=True))
        # a whole model with recurrent cells and layers without parameters: the cells' own parameters are not touched
        cell = C.K().HardMGUCell(2, 2, bias=bias)
        fcell = C.K().HardMGUCellFXP(2, 2, bias=bias)
        net = nn.ModuleList([nn.Linear(2, 3, bias=bias), cell, nn.BatchNorm1d(3, affine=False), fcell, nn.LayerNorm(3)])
        for freq in (1, 2):
            old = {k: v.detach().double().numpy().copy() for k, v in net.named_parameters()}
            net.apply(clipper(freq, mode, 4))
            for k, p in net.named_parameters():
                if k[0] in "13":
                    ctx.check(np.array_equal(L.to_np(p), old[k]), "the clipper changed a parameter that is neither weight nor bias", name=k, mode=mode)
        ctx.traces += 1


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        for bits in range(1, 11):
            cs.append(Case("fine-%s-%d" % (mode, bits), fine, mode, bits))
        for bits in (1, 2, 3, 5, 8):
            for norm in (True, False):
                for n, shape in ((1, (1, 1)), (2, (2, 1)), (3, (1, 3))):
                    if q and n == 3 and bits in (1, 5):
                        continue
                    cs.append(Case("tensors-%s-%d-%d-%s" % (mode, bits, n, norm), tensors, mode, bits, n, shape, VALS, norm))
                cs.append(Case("tensors-%s-%d-4-%s" % (mode, bits, norm), tensors, mode, bits, 4, (2, 2), VALS[::2] if q else VALS[:7], norm))
        for bits in (3, 8):
            for freq in (0, 1, 2, 3, -1):
                cs.append(Case("sequences-%s-%d-%d" % (mode, bits, freq), sequences, mode, bits, freq, 3 if q else 4))
        cs.append(Case("layers-%s" % mode, layers, mode))
    return cs
