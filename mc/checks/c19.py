import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("streaming cell: 1-3 hidden, 1-2 inputs, widths 1-4 (8 for long runs), every word of (hidden, input) bits of 10-12 total bits, then repeated; every buffered hidden value as its own "
          "batch item; all 5^4 weight combinations of the 1x1 cell at width 2, biases; wrapper: every (input, hidden) grid pair at widths 1-4, several weight sets, missing hidden; widths 8-10, up to 8 hidden units")
ASSUMPTIONS = ["rate-coded deterministic generators", "buffered hidden values are within [-1,1]"]


def cell(Wf, Bf, Wn, Bn, hx, width, depth, ism, rng, dimr):
    hw = dict(width=width, mode="bipolar", depth=depth, depth_ismul=ism, rng=rng, dimr=dimr)
    v = lambda x: None if x is None else Y.grid(Y.value(x, width, "bipolar"))
    H = len(Wf)
    return C.K().FSUMGUCell(Wf.shape[1] - H, H, bias=Bf is not None, weight_ext_f=v(Wf), bias_ext_f=v(Bf), weight_ext_n=v(Wn), bias_ext_n=v(Bn),
                            hx_buffer=v(hx), hwcfg=hw, swcfg=dict(Y.SW)), hw


def drive(ctx, Wf, Bf, Wn, Bn, hx, hist, width, depth=10, ism=3, rng="Sobol", dimr=1, count=True):
    H = len(Wf)
    m = Y.MGU(Wf, Bf, Wn, Bn, hx, width, depth, ism, rng, dimr)
    impl, hw = cell(Wf, Bf, Wn, Bn, hx, width, depth, ism, rng, dimr)
    cfg = dict(hw, weight_f=Wf.tolist(), weight_n=Wn.tolist(), bias_f=None if Bf is None else list(Bf), bias_n=None if Bn is None else list(Bn), batch=len(hist))
    Y.conform(ctx, m, hist, impl, "FSUMGUCell", cfg, count=count,
              call=lambda x, t: impl(x[:, H:].contiguous(), x[:, :H].contiguous()))


def words(n, bits, length):
    A = M.Model(); A.ninp = n
    k = max(1, bits // n)
    W = L.words(A.alphabet(), k)
    return np.tile(W, (1, -(-length // k), 1))[:, :length]


def all_weights(ctx, part, parts, bias, bits, length):
    """1 hidden, 1 input, width 2: every weight combination; lanes: histories x buffered hidden values."""
    width, n = 2, 0
    h0 = words(2, bits, length)
    hx = np.tile(np.arange(5), len(h0) // 5 + 1)[:len(h0), None]
    for i, w in enumerate(itertools.product(range(5), repeat=4)):
        if i % parts != part:
            continue
        Wf, Wn = np.array([w[:2]]), np.array([w[2:]])
        Bf = Bn = None
        if bias:
            Bf, Bn = np.array([i % 5]), np.array([(i // 5 + 2) % 5])
        drive(ctx, Wf, Bf, Wn, Bn, np.roll(hx, i, 0), h0, width, 10, 2, "Sobol", 1 + i % 2, count=i % 25 == part)


def general(ctx, H, I, width, depth, ism, rng, dimr, bias, bits, length, salt):
    n = H + I
    h = words(n, bits, length)
    Wf = ((np.arange(H * n) * 3 + salt) % (2 ** width + 1)).reshape(H, n)
    Wn = ((np.arange(H * n) * 5 + 2 * salt + 1) % (2 ** width + 1)).reshape(H, n)
    Bf = (np.arange(H) * 2 + salt) % (2 ** width + 1) if bias else None
    Bn = (np.arange(H) * 7 + 1) % (2 ** width + 1) if bias else None
    hx = ((np.arange(len(h) * H) * 3 + salt) % (2 ** width + 1)).reshape(len(h), H)
    drive(ctx, Wf, Bf, Wn, Bn, hx, h, width, depth, ism, rng, dimr)


def long(ctx, width, ism, salt, T=700):
    A = M.Model(); A.ninp = 2
    if T == 700:
        P = L.periodic(A.alphabet(), 3, 700)
        S = L.switching(A.alphabet(), 2, 700, 301)
    else:
        P = L.periodic(A.alphabet(), 2, T)
        S = L.switching(A.alphabet(), 1, T, T // 2)
    h = np.concatenate([P, S])
    q = 2 ** width
    for Wf, Wn in (([3 * q // 4, q // 4], [q // 2, q]), ([q, 0], [q // 3, 2 * q // 3]), ([q // 2 + 1, q - 1], [1, q - 7])):
        hx = (np.arange(len(h)) * 37 % (q + 1))[:, None]
        drive(ctx, np.array([Wf]), np.array([q // 2 + 5]), np.array([Wn]), np.array([q // 3]), hx, h, width, 10, ism, "sobol", 1, count=False)


def hub_expect(inp, hx, Wf, Bf, Wn, Bn, width, depth, ism, rng, dimr):
    m = Y.MGU(Wf, Bf, Wn, Bn, M.quantize(hx, width, "bipolar"), width, depth, ism, rng, dimr)
    seq = M.rng_seq(rng, width, dimr)
    qi, qh = M.quantize(inp, width, "bipolar"), M.quantize(hx, width, "bipolar")
    st = m.init(len(inp))
    ones = 0
    for t in range(2 ** width):
        x = np.concatenate([(qh > seq[t]), (qi > seq[t])], 1).astype(np.int64)
        st, o = m.step(st, x)
        ones = ones + o
    return 2 * ones / 2 ** width - 1


def hub(ctx, H, I, width, ism, depth, rng, dimr, bias, salts, sub, none_hx, npairs=None):
    n = H + I
    g = np.arange(-sub * 2 ** (width - 1), sub * 2 ** (width - 1) + 1) / (sub * 2 ** (width - 1))
    if npairs:
        hx = g[(np.arange(npairs * H) * 97 + 5) % len(g)].reshape(npairs, H)
        inp = g[(np.arange(npairs * I) * 181 + 3) % len(g)].reshape(npairs, I)
        hx[0], inp[0], hx[1], inp[1] = 1, -1, -1, 1
    elif H == 1 and I == 1:
        X = np.array(list(itertools.product(g, g)))
        hx, inp = X[:, :1], X[:, 1:]
    else:
        N = 120
        hx = g[(np.arange(N * H) * 7) % len(g)].reshape(N, H)
        inp = g[(np.arange(N * I) * 11 + 3) % len(g)].reshape(N, I)
    for salt in salts:
        Wf = ((np.arange(H * n) * 3 + salt) % (2 ** width + 1)).reshape(H, n)
        Wn = ((np.arange(H * n) * 5 + 2 * salt + 1) % (2 ** width + 1)).reshape(H, n)
        Bf = (np.arange(H) * 2 + salt) % (2 ** width + 1) if bias else None
        Bn = (np.arange(H) * 7 + 1 + salt) % (2 ** width + 1) if bias else None
        v = lambda x: None if x is None else Y.grid(Y.value(x, width, "bipolar"))
        hw = dict(width=width, mode="Bipolar", depth=depth, depth_ismul=ism, rng=rng, dimr=dimr)
        keep = dict(hw)
        hc = C.K().HUBMGUCell(I, H, bias=bias, weight_ext_f=v(Wf), bias_ext_f=v(Bf), weight_ext_n=v(Wn), bias_ext_n=v(Bn), hwcfg=hw)
        for none in ((False, True) if none_hx else (False,)):
            hh = np.zeros_like(hx) if none else hx
            exp = hub_expect(inp, hh, Wf, Bf, Wn, Bn, width, depth, ism, rng, dimr)
            ti, th = Y.grid(inp), Y.grid(hx)
            ki, kh = ti.clone(), th.clone()
            for rep in (0, 1):      # calls are independent of earlier calls
                got = hc(ti, None if none else th)
                info = dict(hwcfg=keep, hidden=H, inputs=I, bias=bias, weight_f=Wf, weight_n=Wn, missing_hidden=none, call=rep)
                ctx.check(tuple(got.shape) == exp.shape, "HUBMGUCell output shape %s" % (tuple(got.shape),), **info)
                o = L.to_np(got)
                bad = np.argwhere(np.abs(o - exp) > 1e-6)
                if len(bad):
                    i, j = bad[0]
                    ctx.fail("HUBMGUCell returns %s, expected %s" % (o[i, j], exp[i, j]), input=inp[i], hx=hh[i], **info)
                ctx.evals += o.size
            ctx.check(torch.equal(ti, ki) and torch.equal(th, kh) and hw == keep, "HUBMGUCell modified its arguments")
            ctx.traces += len(inp)
            ctx.nontrivial += len(inp)
            ctx.n_states += len(np.unique(np.concatenate([inp, hh], 1), axis=0)) * 2 ** width
            ctx.n_trans += len(inp) * 2 ** width
            ctx.outcomes.add((salt, none, exp.tobytes()))
    ctx.sample(dict(cell="HUBMGUCell", width=width, hidden=H, inputs=I, pairs=len(inp), cycles=2 ** width))


def cases(tier):
    q = tier != "thorough"
    cs = []
    parts = 16
    for bias in (False, True):
        for p in range(parts):
            cs.append(Case("weights-%s-%d" % ("b" if bias else "n", p), all_weights, p, parts, bias, 8 if q else 10, 16))
        for H, I in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
            for width, ism, depth in ((2, 2, 10), (3, 2, 6), (1, 1, 4), (4, 3, 10)):
                for rng, d in (("Sobol", 1), ("rc", 3)):
                    cs.append(Case("cell-%s-h%di%d-w%d-m%d-d%d-%s" % ("b" if bias else "n", H, I, width, ism, depth, rng), general, H, I, width, depth, ism, rng, d, bias,
                                   10 if q else 12, 24 if q else 40, H + I + width))
        for width in (1, 2, 3) + (() if q else (4,)):
            cs.append(Case("hub-%s-w%d" % ("b" if bias else "n", width), hub, 1, 1, width, 2, 10, "Sobol", 1, bias, range(5) if q else range(9), 2, True))
        cs.append(Case("hub-%s-multi" % ("b" if bias else "n"), hub, 3, 2, 3, 3, 10, "sobol", 2, bias, (1, 4), 2, True))
        cs.append(Case("hub-%s-w6" % ("b" if bias else "n"), hub, 2, 2, 6, 6, 10, "sobol", 1, bias, (9,), 1, False))
    cs.append(Case("long-w8", long, 8, 4, 0))
    cs.append(Case("long-w6", long, 6, 6, 0))
    for bias in (False, True):
        for width, H, I in ((8, 1, 1), (9, 1, 2), (10, 2, 1)):
            cs.append(Case("hub-%s-wide%d" % ("b" if bias else "n", width), hub, H, I, width, 5, 10, "sobol" if bias else "rc", 1, bias, (9,), 1, False, 9))
        for H, I in ((1, 4), (5, 2), (8, 8)):
            cs.append(Case("hub-%s-h%di%d" % ("b" if bias else "n", H, I), hub, H, I, 3, 3, 10, "Sobol", 1, bias, (2,), 2, True, 17))
    cs.append(Case("long-w9", long, 9, 8, 0, 1300 if q else 3000))
    if not q:
        cs.append(Case("long-w10", long, 10, 9, 0, 3000))
    return cs
