import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("every streaming component, metric and streaming layer: all histories of 5-6 bits (1 input) or 3 letters (2-3 inputs) repeated over 3-40 cycles; each history alone in a fresh instance against "
          "batches of all histories in 7 shapes, three lane orders, every window of 2 and 3 neighbouring lanes, and every lane doubled")
ASSUMPTIONS = ["components are fresh for every run", "streams of at least one dimension", "hybrid, fixed-point and temporal look-up layers scale by the whole tensor and are not lane-wise (C20-C22)"]


class Ent:
    """build(ids, shape) -> callable(list of [N,...] tensors of that shape) -> tuple of tensors."""

    def __init__(self, name, ninp, build, shapes=True, tail=(), out_tail=(), tol=0.0):
        self.name, self.ninp, self.build, self.shapes, self.tail, self.out_tail, self.tol = name, ninp, build, shapes, tail, out_tail, tol


def comp_ent(fn, stype=F32, btype=F32):
    c = fn()
    return Ent(c.label(), c.ninp, lambda ids, shape: fn().make(stype, btype))


def op_ent(mode, width, rng):
    # one operand value per lane
    def build(ids, shape):
        v = (np.asarray(ids) * 5 % (2 ** width + 1)) / 2 ** width
        v = v if mode == "unipolar" else 2 * v - 1
        return C.mulstatic(width, mode, torch.tensor(v, dtype=F32).reshape(shape), rng).make()
    return Ent("FSUMul[static per lane,%s,%d,%s]" % (mode, width, rng), 1, build)


def bsg_ent():
    def build(ids, shape):
        src = torch.tensor(np.asarray(ids) % 9, dtype=F32).reshape(shape)
        o = C.S().BSGen(src, torch.tensor([0., 4, 2, 6, 1, 5, 3, 7]), dict(stype=F32))
        cnt = [torch.zeros(shape, dtype=torch.long)]

        def call(ins):
            r = o(cnt[0])
            cnt[0] = cnt[0] + ins[0].long()
            return (r,)
        return call
    return Ent("BSGen[own index per lane]", 1, build)


def metric_ent(kind, mode):
    def build(ids, shape):
        import UnarySim.metric.metric as MM
        src = torch.tensor(((np.asarray(ids) * 7) % 9 - 4) / 4.0, dtype=F32).reshape(shape)
        if kind == "corr":
            o = MM.Correlation()
        elif kind == "err":
            o = MM.ProgError(src, dict(scale=2, mode=mode))
        else:
            o = MM.Stability(src, dict(scale=1, mode=mode, threshold=0.3))

        def call(ins):
            o.Monitor(*ins)
            r = o()
            return tuple(x.detach().clone() for x in (r if isinstance(r, tuple) else (r,)))
        return call
    return Ent("%s[%s]" % (kind, mode), 2 if kind == "corr" else 1, build)


def corr1_ent():
    e = metric_ent("corr", "single")
    e.ninp = 1
    return e


def lin_ent(width, n, bias, mode, rng, scale):
    W = Y.all_rows(width, n, (0, 1, 2 ** width - 1, 2 ** width))[1::2]
    B = (np.arange(len(W)) * 3 % (2 ** width + 1)) if bias else None

    def build(ids, shape):
        o = Y.make_linear(W, B, width, mode, rng, 1, scale)
        return lambda ins: (o(ins[0]),)
    return Ent("FSULinear[%s,%s,%s]" % (mode, rng, scale), n, build, False, (n,), (len(W),))


def conv_ent(mode, rng, bias, pad):
    W = (np.arange(8).reshape(2, 1, 2, 2) * 3) % 5

    def build(ids, shape):
        v = lambda x: Y.grid(Y.value(x, 2, mode))
        o = C.K().FSUConv2d(1, 2, (2, 2), stride=1, padding=pad, bias=bias, weight_ext=v(W), bias_ext=v(np.array([1, 3])) if bias else None,
                            hwcfg=dict(width=2, mode=mode, scale=None, depth=10, rng=rng, dimr=1), swcfg=dict(Y.SW))
        return lambda ins: (o(ins[0].reshape(-1, 1, 2, 3)),)
    p = 2 * pad
    return Ent("FSUConv2d[%s,%s,%d]" % (mode, rng, pad), 6, build, False, (6,), (2, 1 + p, 2 + p))


def mgu_ent():
    Wf, Wn = np.array([[3, 1, 2], [0, 4, 3]]), np.array([[1, 2, 4], [3, 3, 0]])

    def build(ids, shape):
        v = lambda x: Y.grid(Y.value(x, 2, "bipolar"))
        hx = np.stack([np.asarray(ids) % 5, np.asarray(ids) * 3 % 5], 1)
        o = C.K().FSUMGUCell(1, 2, bias=True, weight_ext_f=v(Wf), bias_ext_f=v(np.array([1, 2])), weight_ext_n=v(Wn), bias_ext_n=v(np.array([3, 0])),
                             hx_buffer=v(hx), hwcfg=dict(width=2, mode="bipolar", depth=8, depth_ismul=2, rng="Sobol", dimr=1), swcfg=dict(Y.SW))
        return lambda ins: (o(ins[0][:, 2:].contiguous(), ins[0][:, :2].contiguous()),)
    return Ent("FSUMGUCell", 3, build, False, (3,), (2,))


def hubmgu_ent():
    Wf, Wn = np.array([[3, 1, 2], [0, 4, 3]]), np.array([[1, 2, 4], [3, 3, 0]])
    v = lambda x: Y.grid(Y.value(x, 2, "bipolar"))

    def build(ids, shape):
        o = C.K().HUBMGUCell(1, 2, bias=True, weight_ext_f=v(Wf), bias_ext_f=v(np.array([1, 2])), weight_ext_n=v(Wn), bias_ext_n=v(np.array([3, 0])),
                             hwcfg=dict(width=2, mode="bipolar", depth=8, depth_ismul=2, rng="Sobol", dimr=1))

        def call(ins):
            x = torch.cat([torch.zeros_like(ins[0]) + torch.tensor([0.25, -0.5, 1.0])]) * (2 * ins[0] - 1)
            return (o(x[:, 2:].contiguous(), x[:, :2].contiguous()),)
        return call
    return Ent("HUBMGUCell", 3, build, False, (3,), (2,))


def act_ent(name, tol=0.0):
    def build(ids, shape):
        base = torch.tensor(((np.asarray(ids) * 7) % 64 - 32) / 12.0, dtype=F32).reshape(shape)
        o = getattr(C.K(), name)()
        return lambda ins: (o(base * (1 + ins[0])),)
    return Ent(name, 1, build)


def hist_of(n, T):
    A = M.Model()
    A.ninp = n
    k = max(1, 6 // n)
    W = L.words(A.alphabet(), k)
    T = max(T, k)
    H = np.tile(W, (1, -(-T // k) + 1, 1))
    # each lane repeats its word with one cycle of the reversed word in between
    out = H[:, :T].copy()
    for t in range(T):
        if (t // k) % 3 == 2:
            out[:, t] = W[:, k - 1 - t % k]
    return out


def run(ctx, ent, hist, ids, shape):
    """Feed the histories with the given ids in this shape; returns per-cycle [outs][N, ...]."""
    f = ent.build(ids, tuple(shape))
    outs = []
    for t in range(hist.shape[1]):
        x = hist[ids, t]
        if ent.tail:
            ins = [L.bits(x, F32).reshape((len(ids),) + ent.tail)]
        else:
            ins = [L.bits(x[:, j], F32).reshape(shape) for j in range(ent.ninp)]
        got = f(ins)
        want = (len(ids),) + ent.out_tail if ent.tail else tuple(shape)
        row = []
        for g in got:
            ctx.check(tuple(g.shape) == want, "%s returns shape %s for %s, expected %s" % (ent.name, tuple(g.shape), tuple(shape), want), cycle=t)
            row.append(L.to_np(g).reshape(len(ids), -1))
        outs.append(np.concatenate(row, 1))
    return np.stack(outs)           # [T, N, outs]


def compare(ctx, ent, hist, T, orders=True):
    n = len(hist)
    alone = np.concatenate([run(ctx, ent, hist, [i], (1,)) for i in range(n)], 1)
    ctx.notes["lanes"] = n
    hs = L.hash_rows(alone.transpose(1, 0, 2).reshape(n, -1).astype(float)[:, :19000])
    ctx.states.update(hs.tolist())
    ctx.n_trans += n * T
    plans = [(list(range(n)), (n,)), (list(range(n))[::-1], (n,)), ([(i * 5 + 3) % n for i in range(n)] if n % 5 else list(range(n)), (n,))]
    if ent.shapes:
        plans += [(list(range(n)), s) for s in ((n, 1), (1, n), (n // 4, 4), (2, n // 8, 4), (2, 2, n // 16, 4))]
        plans += [([i], s) for i in range(0, n, 5) for s in ((1, 1), (1, 1, 1))]
    for w in (2, 3):
        plans += [([(i + j) % n for j in range(w)], (w,)) for i in range(0, n, 1 if n <= 64 else 3)]
    plans.append(([i // 2 for i in range(2 * n)], (2 * n,)))
    plans.append(([i % n for i in range(2 * n)], (2, n) if ent.shapes else (2 * n,)))
    for ids, shape in plans:
        got = run(ctx, ent, hist, ids, shape)
        d = np.abs(got - alone[:, ids])
        ctx.evals += d.size
        ok = (got == alone[:, ids]) if ent.tol == 0 else (d <= ent.tol)
        if not ok.all():
            t, i, o = (int(v) for v in np.argwhere(~ok)[0])
            ctx.fail("%s: element %d of shape %s differs at cycle %d from the same history alone: %s against %s" % (
                ent.name, i, tuple(shape), t, got[t, i, o], alone[t, ids[i], o]), lanes=ids[:40], history=hist[ids[i], :t + 1].tolist(), output=o)
        ctx.traces += len(ids)
        ctx.outcomes.add(hash((ent.name, tuple(shape), got.tobytes())))
    ctx.nontrivial += len(plans)
    ctx.sample(dict(component=ent.name, lanes=n, cycles=T, layouts=len(plans), history=hist[n // 3].tolist()[:12]))


def case(ctx, mk, T):
    ent = mk()
    h = hist_of(ent.ninp, T)
    compare(ctx, ent, h, h.shape[1])


def fsuadd_dims(ctx, mode, n, scale):
    """The reduced dimension may be any: same lanes, every position of the stacked dimension."""
    A = M.Model(); A.ninp = n
    W = L.words(A.alphabet(), 2)
    W = W[:64] if len(W) > 64 else W
    T = 12
    H = np.tile(W, (1, T // 2, 1))
    N = len(H)
    mk = lambda dima: C.K().FSUAdd(dict(mode=mode, scale=scale, dima=dima, depth=8, entry=None), dict(btype=F32, stype=F32))
    alone = np.zeros((T, N))
    for i in range(N):
        o = mk(0)
        for t in range(T):
            r = o(L.bits(H[i, t][:, None], F32))
            ctx.check(tuple(r.shape) == (1,), "shape %s" % (tuple(r.shape),))
            alone[t, i] = float(r[0])
    for shape in ((N,), (N // 4, 4), (4, N // 4), (2, N // 4, 2)):
        for d in range(-len(shape) - 1, len(shape) + 1):
            o = mk(d)
            for t in range(T):
                x = np.stack([H[:, t, j].reshape(shape) for j in range(n)], axis=d)
                r = o(L.bits(x, F32))
                ctx.check(tuple(r.shape) == shape, "addition along %d of %s returns shape %s" % (d, x.shape, tuple(r.shape)))
                got = L.to_np(r).reshape(-1)
                ctx.evals += N
                if not (got == alone[t]).all():
                    i = int(np.argmax(got != alone[t]))
                    ctx.fail("addition along dimension %d of shape %s: element %d differs at cycle %d from the same history alone" % (d, x.shape, i, t),
                             mode=mode, scale=scale, history=H[i, :t + 1].tolist())
            ctx.traces += N
            ctx.nontrivial += 1
    ctx.n_states += N * T
    ctx.n_trans += N * T
    ctx.outcomes.add(hash(alone.tobytes()))
    ctx.sample(dict(component="FSUAdd", mode=mode, entries=n, scale=scale, lanes=N, cycles=T))


def cases(tier):
    q = tier != "thorough"
    x = 1 if q else 3
    cs = []

    def add(name, mk, T):
        cs.append(Case(name, case, mk, T * x))
    fns = [lambda d=d: C.skewedsync(d) for d in (1, 2, 3)]
    for d in (3, 5):
        fns += [lambda d=d: C.bi2uni(d), lambda d=d: C.uni2bi(d)]
    for d in (1, 3):
        fns += [lambda d=d: C.signabs(d), lambda d=d: C.relu(d)]
    fns += [C.hardtanh, C.jkff, lambda: C.shiftreg(3), lambda: C.shiftreg(4, True), lambda: C.cordiv(2), lambda: C.cordiv(4)]
    for m in ("unipolar", "bipolar"):
        fns += [lambda m=m: C.hardsigmoid(6, m), lambda m=m: C.mulstream(2, m), lambda m=m: C.mulstream(3, m), lambda m=m: C.div(m), lambda m=m: C.add(2, m), lambda m=m: C.add(3, m, 1, 6),
                lambda m=m: C.mulstatic(3, m, torch.tensor([0.375]))]
        fns += [lambda m=m: C.sqrt(m, True), lambda m=m: C.sqrt(m, True, entry_sr=4), lambda m=m: C.sqrt(m, False, True), lambda m=m: C.sqrt(m, False, False)]
    for fn in fns:
        c = fn()
        add(c.label(), lambda fn=fn: comp_ent(fn), 20)
    for fn in (lambda: C.bi2uni(4), lambda: C.skewedsync(2), lambda: C.relu(3), lambda: C.add(2, "bipolar")):
        add("int8-" + fn().label(), lambda fn=fn: comp_ent(fn, F32, I8), 16)
    for m in ("unipolar", "bipolar"):
        for r in ("Sobol", "race"):
            add("mul-lanes-%s-%s" % (m, r), lambda m=m, r=r: op_ent(m, 3, r), 24)
        add("err-%s" % m, lambda m=m: metric_ent("err", m), 12)
        add("stab-%s" % m, lambda m=m: metric_ent("stab", m), 12)
        for n in (1, 2, 3):
            for s in (None, 1):
                cs.append(Case("add-dims-%s-%d-%s" % (m, n, s), fsuadd_dims, m, n, s))
        for r in ("Sobol", "race"):
            for b in (True, False):
                add("linear-%s-%s-%s" % (m, r, b), lambda m=m, r=r, b=b: lin_ent(2, 2, b, m, r, None), 14)
            for p in (0, 1):
                add("conv-%s-%s-%d" % (m, r, p), lambda m=m, r=r, p=p: conv_ent(m, r, True, p), 8)
        add("linear1-%s" % m, lambda m=m: lin_ent(3, 1, True, m, "Sobol", 1), 20)
    add("corr", lambda: metric_ent("corr", ""), 12)
    add("corr1", corr1_ent, 12)
    add("bsgen", bsg_ent, 20)
    add("mgu", mgu_ent, 12)
    add("hubmgu", hubmgu_ent, 2)
    for a in ("HUBReLU", "HUBHardsigmoid", "HUBHardtanh", "Round"):
        add("act-" + a, lambda a=a: act_ent(a), 2)
    return cs
