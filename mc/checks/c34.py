import itertools
import numpy as np
import torch
from ..core import Case
from .. import comps as C, lanes as L, layers as Y, models as M
from ..common import *

LEVEL = "model_checking"
BOUNDS = ("every streaming component that takes data types: all 36 stream x buffer data types (36 x random-number types for multipliers), all histories of 8 bits (1 input) or 4 letters (2-3 inputs) repeated "
          "over 40 cycles and every periodic history (period 3, or 2) over 300-600 cycles, each against the single-precision run of the same component; generators: 6 types, widths 1-8, every source value; ramps through saturation at depths 8-12 for every type that can hold the counters")
ASSUMPTIONS = ["a data type is allowed when it can hold the component's counters and random numbers (int8 buffers up to depth 6, random numbers up to width 7 in int8 and 11 in half)"]


def outputs(fn, hist, s, b, r):
    c = fn()
    f = c.make(s, b, r)
    outs = []
    kinds = set()
    for t in range(hist.shape[1]):
        got = f([L.bits(hist[:, t, j], s) for j in range(c.ninp)])
        kinds.add(str(got[0].dtype))
        outs.append([L.to_np(g).reshape(-1) for g in got])
    return np.array(outs), kinds


def case(ctx, fn, T, long, maxp, rtypes):
    c = fn()
    n = c.ninp
    W = L.words(c.model.alphabet(), 8 if n == 1 else 4 if n == 2 else 3)
    H = np.tile(W, (1, -(-T // W.shape[1]), 1))[:, :T]
    P = L.periodic(c.model.alphabet(), maxp, long)
    for hist in (H, P):
        ref, _ = outputs(fn, hist, F32, F32, F32)
        ctx.states.update(L.hash_rows(np.cumsum(ref[:, 0], 0).T.astype(float)[:, :19000]).tolist())
        for s in c.stypes:
            for b in c.btypes:
                for r in rtypes:
                    got, kinds = outputs(fn, hist, s, b, r)
                    ctx.evals += got.size
                    ctx.n_trans += hist.shape[0] * hist.shape[1]
                    ctx.traces += len(hist)
                    cfg = dict(component=c.label(), stype=dt(s), btype=dt(b), rtype=dt(r))
                    if got.shape != ref.shape or not (got == ref).all():
                        t, o, i = (int(v) for v in np.argwhere(got != ref)[0])
                        ctx.fail("%s: stream type %s, buffer type %s, random number type %s give bit %s at cycle %d instead of %s" % (
                            c.label(), dt(s), dt(b), dt(r), got[t, o, i], t, ref[t, o, i]), history=hist[i, :t + 1].tolist(), **cfg)
                    if not c.name.startswith("ShiftReg"):
                        ctx.check(kinds == {str(s)}, "%s returns data types %s" % (c.label(), kinds), **cfg)
                    ctx.outcomes.add((c.label(), dt(s), dt(b), dt(r)))
        ctx.nontrivial += len(hist)
    ctx.sample(dict(component=c.label(), stypes=len(c.stypes), btypes=len(c.btypes), rtypes=len(rtypes), histories=len(H) + len(P)))


def rampcase(ctx, fn, seg, nseg, top, rtypes):
    c = fn()
    H = ramps(c.model.alphabet(), seg, nseg)
    ref = None
    for s, b in [(F32, F32)] + wide_types(c, top):
        for r in rtypes:
            got, kinds = outputs(fn, H, s, b, r)
            if ref is None:
                ref = got
            ctx.evals += got.size
            ctx.n_trans += H.shape[0] * H.shape[1]
            ctx.traces += len(H)
            if got.shape != ref.shape or not (got == ref).all():
                t, o, i = (int(v) for v in np.argwhere(got != ref)[0])
                ctx.fail("%s: stream type %s, buffer type %s give bit %s at cycle %d instead of %s" % (c.label(), dt(s), dt(b), got[t, o, i], t, ref[t, o, i]),
                         history_summary="letters held %d cycles each" % seg, lane=i)
            ctx.check(kinds == {str(s)}, "%s returns data types %s" % (c.label(), kinds), stype=dt(s))
            ctx.outcomes.add((c.label(), dt(s), dt(b), dt(r)))
    ctx.n_states += H.shape[0] * H.shape[1]
    ctx.nontrivial += len(H)


def holds(t, top):
    return top <= {F16: 2048, I8: 127}.get(t, 2 ** 24)


def rng_types(ctx, width, rng, dimr):
    """Same sequence, quantised values and bits whatever the number types."""
    S = C.S()
    N = 2 ** width
    ref = None
    for mode in ("unipolar", "bipolar"):
        q = np.arange(0, 4 * N + 1) / (4.0 * N)
        src = torch.tensor(q if mode == "unipolar" else 2 * q - 1, dtype=F32)
        bref = L.to_np(S.BinGen(src, dict(width=width, mode=mode), dict(rtype=F32))())
        sref = L.to_np(S.RNG(dict(width=width, dimr=dimr, rng=rng), dict(rtype=F32))())
        exp = (bref[None] > sref[np.arange(2 * N) % N][:, None])
        for r in ALL6:
            if not holds(r, N):
                continue
            seq = S.RNG(dict(width=width, dimr=dimr, rng=rng), dict(rtype=r))()
            val = S.BinGen(src, dict(width=width, mode=mode), dict(rtype=r))()
            ctx.check(seq.dtype == r and val.dtype == r, "requested type %s, got %s and %s" % (r, seq.dtype, val.dtype))
            ctx.check(bool((L.to_np(seq) == sref).all()), "the random number type changes the sequence", width=width, rng=rng, rtype=dt(r))
            if not (L.to_np(val) == bref).all():
                i = int(np.argmax(L.to_np(val) != bref))
                ctx.fail("the random number type %s changes the quantised value of %s from %s to %s" % (dt(r), float(src[i]), bref[i], L.to_np(val)[i]), width=width, mode=mode)
            for s in ALL6:
                g = S.BSGen(val, seq, dict(stype=s))
                for t in range(2 * N):
                    o = g(torch.full(tuple(src.shape), t, dtype=torch.long))
                    ctx.evals += len(src)
                    if o.dtype != s or not (L.to_np(o) == exp[t]).all():
                        ctx.fail("generated bits depend on the data types (%s, %s) at cycle %d" % (dt(r), dt(s), t), width=width, mode=mode, rng=rng, got=o.dtype)
            ctx.traces += len(src) * len(ALL6)
            ctx.n_trans += 2 * N * len(ALL6)
            ctx.n_states += N
        ctx.nontrivial += 1
        ctx.outcomes.add((width, rng, dimr, mode))
    ctx.sample(dict(width=width, rng=rng, dimr=dimr, sources=4 * N + 1))


def metrics(ctx, kind, mode):
    """Metrics accept bits of any type."""
    import UnarySim.metric.metric as MM
    W = L.words([(0,), (1,)], 8)[:, :, 0]
    src = torch.tensor((np.arange(len(W)) % 9 - 4) / 4.0, dtype=F32)

    def run(s):
        m = MM.ProgError(src, dict(scale=1, mode=mode)) if kind == "err" else MM.Stability(src, dict(scale=1, mode=mode, threshold=0.3)) if kind == "stab" else MM.Correlation()
        outs = []
        for t in range(8):
            b = L.bits(W[:, t], s)
            m.Monitor(b, L.bits(W[::-1, t].copy(), s)) if kind == "corr" else m.Monitor(b)
            r = m()
            outs.append([L.to_np(x).reshape(-1).copy() for x in (r if isinstance(r, tuple) else (r,))])
        return np.array(outs)
    ref = run(F32)
    for s in ALL6:
        g = run(s)
        ctx.evals += g.size
        ctx.traces += len(W)
        ctx.n_trans += len(W) * 8
        ctx.check(bool((np.abs(g - ref) <= 3e-7).all()), "%s report depends on the stream type %s" % (kind, dt(s)), mode=mode)
        ctx.outcomes.add((kind, mode, dt(s)))
    ctx.n_states += len(W)
    ctx.nontrivial += len(W)
    ctx.sample(dict(metric=kind, mode=mode, histories=len(W)))


def cases(tier):
    q = tier != "thorough"
    cs = []
    RT = (F32, F64, F16, I8, I32, I64)

    def add(fn, T=40, long=300, maxp=3, rt=(F32,)):
        cs.append(Case("%d-%s" % (len(cs), fn().label()), case, fn, T if q else 2 * T, long if q else 4 * long, maxp, rt))
    for d in (1, 2, 3, 5):
        add(lambda d=d: C.skewedsync(d), maxp=2)

    def ramp(fn, seg, nseg, top, rt=(F32,)):
        cs.append(Case("%d-ramp-%s" % (len(cs), fn().label()), rampcase, fn, seg, nseg, top, rt))
    for d in (8, 9) if q else (7, 8, 9, 10, 11):
        ramp(lambda d=d: C.skewedsync(d), 2 ** d + 3, 2, 2 ** d)
        ramp(lambda d=d: C.signabs(d), 2 ** (d - 1) + 3, 3, 2 ** d)
        ramp(lambda d=d: C.relu(d), 2 ** (d - 1) + 3, 3, 2 ** d)
    for d in (9, 10) if q else (9, 10, 11, 12):
        ramp(lambda d=d: C.bi2uni(d), 2 ** (d - 2) + 3, 3, 2 ** (d - 2) + 2)
        ramp(lambda d=d: C.uni2bi(d), 2 ** (d - 2) + 3, 3, 2 ** (d - 2) + 2)
        for m in ("unipolar", "bipolar"):
            ramp(lambda d=d, m=m: C.add(2, m, 1, d), 2 ** (d - 2) + 3, 2, 2 ** (d - 2) + 4)
    for d in (3, 4, 6):
        add(lambda d=d: C.bi2uni(d))
        add(lambda d=d: C.uni2bi(d))
    for d in (1, 2, 3, 6, 7, 8):
        add(lambda d=d: C.signabs(d), long=400)
        add(lambda d=d: C.relu(d), long=400)
    add(C.hardtanh)
    add(C.jkff, maxp=2)
    for e in (1, 2, 5, 200):
        add(lambda e=e: C.shiftreg(e), T=40 if e < 9 else 300, long=300 if e < 9 else 600, maxp=3 if e < 9 else 2)
    add(lambda: C.shiftreg(4, True), maxp=2)
    for e in (2, 8):
        add(lambda e=e: C.cordiv(e), maxp=2)
    for m in ("unipolar", "bipolar"):
        add(lambda m=m: C.hardsigmoid(6, m))
        for n, s, d in ((2, None, 6), (2, 1, 6), (3, None, 5), (3, 1, 7), (1, None, 4)):
            if s is None or m == "unipolar" or (n - s) % 2 == 0 or d:
                add(lambda m=m, n=n, s=s, d=d: C.add(n, m, s, d), maxp=2)
        for w in (2, 3):
            add(lambda m=m, w=w: C.mulstream(w, m), maxp=2, rt=(F32, F64, F16, I8, I32, I64) if not q else (F32, I8, I64))
            add(lambda m=m, w=w: C.mulstatic(w, m, torch.tensor([0.75])), rt=RT)
        for w in (7, 8):
            add(lambda m=m, w=w: C.mulstream(w, m), T=300 if w == 7 else 60, long=400, maxp=1, rt=(F32, F16, I64))
        add(lambda m=m: C.mulstatic(6, m, torch.tensor([0.3])), rt=RT)
        add(lambda m=m: C.mulstatic(8, m, torch.tensor([0.3])), rt=(F32, F16, F64, I32, I64), long=600, maxp=2)
        add(lambda m=m: C.mulstatic(8, m, torch.tensor([1.0])), rt=(F32, F16, F64, I32, I64), long=600, maxp=2)
        add(lambda m=m: C.div(m), maxp=2, long=120)
        add(lambda m=m: C.div(m, 4, 3, 4), maxp=2, long=120)
        for e in (2, 4):
            add(lambda m=m, e=e: C.sqrt(m, True, entry_sr=e), long=150)
        add(lambda m=m: C.sqrt(m, False, True), long=150)
        add(lambda m=m: C.sqrt(m, False, False), long=150)
        for k in ("err", "stab", "corr"):
            cs.append(Case("%s-%s" % (k, m), metrics, k, m))
    for w in range(1, 7 if q else 9):
        for rng, d in (("sobol", 1), ("race", 1), ("tc10", 1), ("rc", 3)):
            cs.append(Case("gen-w%d-%s" % (w, rng), rng_types, w, rng, d))
    cs.append(Case("gen-w8", rng_types, 8, "sobol", 2))
    cs.append(Case("gen-w7", rng_types, 7, "sobol", 2))
    return cs
