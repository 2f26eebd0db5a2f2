import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, models as M
from ..common import *

LEVEL = "exploration"
BOUNDS = ("every operand pair on the full grid at widths 3-6 (a third of the grid at 7, a seventh at 8; all at thorough), both modes, full source-to-metric chain (quantiser, generator, component, "
          "progressive error) over one, two and three periods; dense layer: every weight/input grid combination of 1-3 inputs at widths 3-6")
ASSUMPTIONS = ["operands are encoded with the recommended generators: distinct Sobol dimensions for streamed operands", "divisors of magnitude at least 1/4 (unipolar) or 1/2 (bipolar), not smaller than the dividend",
               "bounds in C35's statement, fixed in this file"]


def step(w, mode):
    return (1 if mode == "unipolar" else 2) / 2.0 ** w


BOUND = dict(
    gen=lambda w, m: 0.5 * step(w, m) + 1e-6,
    scaled_add=lambda w, m: step(w, m),
    add=lambda w, m: 4 * step(w, m),
    static_mul=lambda w, m: (w + 2) / 2 * step(w, m),
    stream_mul=lambda w, m: 15 * step(w, m),
    div=lambda w, m: {"unipolar": {3: .4, 4: .27, 5: .17, 6: .16, 7: .13, 8: .12}, "bipolar": {3: .8, 4: .6, 5: .6, 6: .6, 7: .6, 8: .6}}[m][w],
    sqrt_emit=lambda w, m: {"unipolar": .27, "bipolar": .28}[m],
    sqrt_trace=lambda w, m: {"unipolar": .27, "bipolar": .55}[m],
    relu=lambda w, m: step(w, m),
    hardsigmoid=lambda w, m: step(w, m),
    linear=lambda w, m: ((w + 2) / 2 + 1) * step(w, m),
)


def grid(w, mode, thin):
    v = np.arange(2 ** w + 1) / 2.0 ** w
    v = v if mode == "unipolar" else 2 * v - 1
    return v[::thin] if thin > 1 else v


def gen(vals, w, mode, dim, shape):
    S = C.S()
    src = torch.tensor(vals, dtype=F32).reshape(shape)
    b = S.BSGen(S.BinGen(src, dict(width=w, mode=mode), dict(rtype=F32))(), S.RNG(dict(width=w, dimr=dim, rng="Sobol"), dict(rtype=F32))(), dict(stype=F32))
    idx = torch.zeros(shape, dtype=torch.long)
    return lambda t: b(idx + t)


def measure(ctx, name, w, mode, vals, dims, mk, ref, periods, scale=1):
    """Source to report; the decoded value after each whole period must be within the bound of the true result."""
    import UnarySim.metric.metric as MM
    n = len(vals[0])
    shape = (n,)
    gens = [gen(v, w, mode, d, shape) for v, d in zip(vals, dims)]
    f = mk()
    pe = MM.ProgError(torch.tensor(ref, dtype=F32), dict(scale=scale, mode=mode))
    ones = np.zeros(n)
    T = 2 ** w
    bound = BOUND[name](w, mode)
    worst = 0
    for t in range(periods * T):
        o = f([g(t) for g in gens])[0]
        pe.Monitor(o)
        ones += L.to_np(o)
        if (t + 1) % T == 0:
            pp, err = pe()
            e = np.abs(L.to_np(err))
            dec = ones / (t + 1) if mode == "unipolar" else 2 * ones / (t + 1) - 1
            ctx.check(bool((np.abs(L.to_np(pp) - dec) <= 1e-6).all()), "the reported value is not the decoded stream", component=name)
            ctx.evals += n
            # the first report may not exceed the bound, nor may a longer stream make things worse than it
            if not (e <= bound + 1e-6).all():
                i = int(np.argmax(~(e <= bound + 1e-6)))
                ctx.fail("%s: after %d cycles the result %s is off by %s from the true %s (bound %s)" % (name, t + 1, dec[i], e[i], ref[i] / scale, bound),
                         width=w, mode=mode, operands=[float(v[i]) for v in vals])
            worst = max(worst, e.max())
            ctx.outcomes.add(hash((name, w, mode, t, e.tobytes())))
    ctx.notes["worst error"] = float(worst)
    ctx.notes["bound"] = float(bound)
    ctx.traces += n
    ctx.n_states += n * periods * T
    ctx.n_trans += n * periods * T
    ctx.nontrivial += n
    ctx.sample(dict(component=name, width=w, mode=mode, operands=n, worst=float(worst), bound=float(bound)))


def pairs(ctx, name, w, mode, thin, periods, mk, true, dims, keep=None):
    v = grid(w, mode, thin)
    a, b = (x.reshape(-1) for x in np.meshgrid(v, v))
    if keep is not None:
        k = keep(a, b)
        a, b = a[k], b[k]
    measure(ctx, name, w, mode, (a, b), dims, mk(a, b), true(a, b), periods)


def single(ctx, name, w, mode, periods, mk, true, keep=None):
    v = grid(w, mode, 1)
    if keep is not None:
        v = v[keep(v)]
    measure(ctx, name, w, mode, (v,), (1,), mk, true(v), periods)


def static(w, mode, d):
    def mk(a, b):
        def m():
            f = C.mulstatic(w, mode, torch.tensor(b, dtype=F32), "Sobol", d).make()
            return lambda ins: f(ins[:1])
        return m
    return mk


def linear(ctx, w, n, mode, bias, thin):
    import UnarySim.metric.metric as MM
    g = np.arange(0, 2 ** w + 1, thin)
    Wq = np.array(list(itertools.product(g, repeat=n)), dtype=np.int64)
    B = (np.arange(len(Wq)) * 5) % (2 ** w + 1) if bias else None
    X = Y.value(Wq, w, mode)
    lay = Y.make_linear(Wq, B, w, mode, "Sobol", 1, None, 12)
    ref = X @ Y.value(Wq, w, mode).T + (Y.value(B, w, mode)[None] if bias else 0)
    s = n + bias
    pe = MM.ProgError(torch.tensor(ref, dtype=F32), dict(scale=s, mode=mode))
    g = gen(X, w, mode, 2, X.shape)
    T = 2 ** w
    bound = BOUND["linear"](w, mode)
    for t in range(2 * T):
        pe.Monitor(lay(g(t)))
        if t + 1 in (T, 2 * T):
            e = np.abs(L.to_np(pe()[1]))
            ctx.evals += e.size
            ctx.check(bool((e <= bound + 1e-6).all()), "dense layer off by %s after %d cycles (bound %s)" % (e.max(), t + 1, bound), width=w, mode=mode, inputs=n, bias=bias)
            ctx.notes["worst error"] = float(e.max())
            ctx.outcomes.add(hash((w, n, mode, bias, t, e.tobytes())))
    ctx.traces += len(X)
    ctx.n_states += len(X) * 2 * T
    ctx.n_trans += len(X) * 2 * T
    ctx.nontrivial += e.size
    ctx.sample(dict(component="linear", width=w, mode=mode, inputs=n, bias=bias, worst=float(e.max()), bound=float(bound)))


def cases(tier):
    q = tier != "thorough"
    cs = []
    for mode in ("unipolar", "bipolar"):
        lo = -1 if mode == "bipolar" else 0
        minb = 0.25 if mode == "unipolar" else 0.5
        okdiv = lambda a, b, minb=minb: (np.abs(a) <= np.abs(b)) & (np.abs(b) >= minb)
        for w in range(3, 9):
            thin = {7: 3, 8: 7}.get(w, 1) if q else 1
            per = 3 if w < 6 else 2
            m = mode[:3]
            one = lambda comp: (lambda a, b: comp)
            cs.append(Case("add-%s-w%d" % (m, w), pairs, "scaled_add", w, mode, thin, per, one(lambda mode=mode: C.add(2, mode, None, 12).make()), lambda a, b: (a + b) / 2, (1, 2)))
            cs.append(Case("uadd-%s-w%d" % (m, w), pairs, "add", w, mode, thin, per, one(lambda mode=mode: C.add(2, mode, 1, 12).make()),
                           lambda a, b, lo=lo: np.clip(a + b, lo, 1), (1, 2)))
            for d1, d2 in ((1, 1), (2, 1), (1, 2)):
                cs.append(Case("smul-%s-w%d-%d%d" % (m, w, d1, d2), pairs, "static_mul", w, mode, thin, per, static(w, mode, d2), lambda a, b: a * b, (d1, 3)))
            for d in (1, 3):
                cs.append(Case("xmul-%s-w%d-%d" % (m, w, d), pairs, "stream_mul", w, mode, thin, 1, one(lambda mode=mode, w=w, d=d: C.mulstream(min(4, w), mode, "Sobol", d).make()),
                               lambda a, b: a * b, (1, 2)))
            cs.append(Case("div-%s-w%d" % (m, w), pairs, "div", w, mode, thin, 1, one(lambda mode=mode: C.div(mode, 3, 2, 2).make()), lambda a, b: a / b, (1, 2), okdiv))
            for emit, jk in ((True, True), (False, True), (False, False)):
                cs.append(Case("sqrt-%s-w%d-%s-%s" % (m, w, emit, jk), single, "sqrt_emit" if emit else "sqrt_trace", w, mode, 1,
                               lambda mode=mode, emit=emit, jk=jk: C.sqrt(mode, emit, jk).make(), lambda v: np.sqrt(np.abs(v)), lambda v: v >= 0))
            cs.append(Case("sigmoid-%s-w%d" % (m, w), single, "hardsigmoid", w, mode, per, lambda mode=mode: C.hardsigmoid(8, mode).make(), lambda v: (v + 1) / 2))
            if mode == "bipolar":
                cs.append(Case("relu-w%d" % w, single, "relu", w, mode, per, lambda: C.relu(5).make(), lambda v: np.maximum(v, 0)))
            cs.append(Case("gen-%s-w%d" % (m, w), single, "gen", w, mode, per, lambda: (lambda ins: ins), lambda v: v))
        for bias in (False, True):
            for w, n, thin in ((3, 1, 1), (3, 2, 1), (3, 3, 3), (4, 2, 1), (5, 2, 3), (6, 1, 1), (8, 1, 3), (8, 2, 29), (6, 3, 13)):
                cs.append(Case("linear-%s-%s-w%dn%d" % (mode[:3], bias, w, n), linear, w, n, mode, bias, thin if q else max(1, thin // 2)))
    return cs
